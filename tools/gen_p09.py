#!/usr/bin/env python3
# Writes checks/p09m.hpp and checks/p09m_*.cpp: one class for each injection macro and number of dependencies.
import os
N = 16
here = os.path.dirname(os.path.abspath(__file__)) + '/../checks/'
forms = ['Inject', 'InjectNamed', 'InjectConstruct', 'InjectConstructNamed', 'InjectTypes', 'InjectNamedTypes',
         'HeaderBody', 'HeaderBodyNamed', 'HeaderBodyTypes', 'HeaderBodyNamedTypes']
open(here + 'p09m.hpp', 'w').write('''#pragma once
// Written by tools/gen_p09.py. Injection macros of every number of dependencies: each member gets its own dependency, and
// each dependency is part of the validation.
#include "p09.hpp"
#include <Balau/Application/InjectableHeader.hpp>
#include <Balau/Application/InjectableBody.hpp>

template <int I> struct Tag { int v = -1; };
struct Made { virtual ~Made() = default; virtual std::vector<int> all() const = 0; };

struct MConf : ApplicationConfiguration {
	int omit; bool named;
	void (*extra)(const MConf &);
	MConf(int omit_, bool named_, void (*extra_)(const MConf &)) : omit(omit_), named(named_), extra(extra_) {}
	template <typename T> BindingBuilder<T, std::default_delete<T>> & b(const std::string & n = "") const { return bind<T>(n); }
	void configure() const override;
};
void macroCase(vk::Ctx & ctx, const char * form, int n, bool named, void (*bind)(const MConf &), std::vector<int> (*value)(const Injector &));
template <typename T> static void macro(vk::Ctx & ctx, const char * form, int n, bool named) {
	macroCase(ctx, form, n, named
		, [] (const MConf & c) { c.b<Made>().template toUnique<T>(); c.b<T>().toValue(); }
		, [] (const Injector & i) { return i.getValue<T>().all(); });
}
''' + ''.join('void macros%d(vk::Ctx & ctx);\n' % k for k in range(len(forms))))
open(here + 'p09m.cpp', 'w').write('''// Written by tools/gen_p09.py.
#include "p09m.hpp"

template <int I> static void one(const MConf & c) {
	if (I == c.omit) return;
	if (c.named) c.b<int>("n" + std::to_string(I)).toValue(1000 + I); else c.b<Tag<I>>().toValue(Tag<I>{ 1000 + I });
}
template <int ... I> static void tags(const MConf & c, std::integer_sequence<int, I ...>) { (one<I>(c), ...); }
void MConf::configure() const { tags(*this, std::make_integer_sequence<int, 16>()); extra(*this); }

void macroCase(vk::Ctx & ctx, const char * form, int n, bool named, void (*bind)(const MConf &), std::vector<int> (*value)(const Injector &)) {
	for (int omit = -1; omit < n; ++omit) {
		auto text = [&] { return std::string(form) + " with " + std::to_string(n) + " dependencies" + (omit < 0 ? "" : ", binding " + std::to_string(omit) + " absent"); };
		if (!ctx.begin(text)) continue;
		std::vector<int> want, u, v;
		for (int i = 0; i < n; ++i) want.push_back(1000 + i);
		auto r = attempt([&] {
			auto i = Injector::create(MConf(omit, named, bind));
			u = i->getUnique<Made>()->all();
			v = value(*i);
		});
		std::string verdict = omit < 0 ? "accepted" : "missing";
		ctx.check(r == verdict, text(), [&] { return r + ", expected " + verdict; });
		if (omit < 0) ctx.check(u == want && v == want, text() + ": members", [] { return std::string("a member does not have its own dependency"); });
		ctx.transitions += 2;
		ctx.nontrivial(vk::hash(text()));
		ctx.outcome(form);
	}
}
void macros(vk::Ctx & ctx) {
''' + ''.join('\tmacros%d(ctx);\n' % k for k in range(len(forms))) + '}\n')
for k, f in enumerate(forms):
    out = ['// Written by tools/gen_p09.py.', '#include "p09m.hpp"', '']
    named = 'Named' in f
    for n in range(0, N + 1):
        t = 'M%s%d' % (f, n)
        ty = lambda i: 'int' if named else 'Tag<%d>' % i
        fields = ' '.join('%s f%d;' % (ty(i), i) for i in range(n))
        params = ', '.join('%s f%d_' % (ty(i), i) for i in range(n))
        inits = ', '.join('f%d(f%d_)' % (i, i) for i in range(n))
        ctor = ('explicit ' if n == 1 else '') + '%s(%s)%s {}' % (t, params, ' : ' + inits if n else '')
        all_ = 'std::vector<int> all() const override { return { %s }; }' % ', '.join('f%d%s' % (i, '' if named else '.v') for i in range(n))
        names = ', '.join('f%d%s' % (i, ', "n%d"' % i if named else '') for i in range(n))
        types = ', '.join('%s%s' % (ty(i), ', "n%d"' % i if named else '') for i in range(n))
        args = (', ' + (types if 'Types' in f else names)) if n else ''
        body = ''
        if f in ('InjectConstruct', 'InjectConstructNamed'): m = 'Balau%s(%s%s)' % (f, t, args)
        elif f.startswith('Inject'): m = ctor + ' Balau%s(%s%s)' % (f, t, args)
        elif f in ('HeaderBody', 'HeaderBodyNamed'):
            m = 'BalauInjectHeaderConstruct(%s%s);' % (t, ''.join(', f%d' % i for i in range(n)))
            body = 'BalauInjectBody%s(%s%s)' % (f[10:], t, args)
        else:
            m = ctor + ' BalauInjectHeader(%s);' % t
            body = 'BalauInjectBody%s(%s%s)' % (f[10:], t, args)
        out.append('struct %s : Made { %s %s %s };' % (t, fields, all_, m))
        if body: out.append(body + ';' if not body.endswith(';') else body)
    out.append('void macros%d(vk::Ctx & ctx) {' % k)
    for n in range(0, N + 1): out.append('	macro<M%s%d>(ctx, "%s", %d, %s);' % (f, n, f, n, 'true' if named else 'false'))
    out += ['}', '']
    open(here + 'p09m_%d.cpp' % k, 'w').write('\n'.join(out))
