// Written by tools/gen_p09.py.
#include "p09m.hpp"

template <int I> static void one(const MConf & c) {
	if (I == c.omit) return;
	if (c.named) c.b<int>("n" + std::to_string(I)).toValue(1000 + I); else c.b<Tag<I>>().toValue(Tag<I>{ 1000 + I });
}
template <int ... I> static void tags(const MConf & c, std::integer_sequence<int, I ...>) { (one<I>(c), ...); }
void MConf::configure() const { tags(*this, std::make_integer_sequence<int, 16>()); extra(*this); }

void macroCase(vk::Ctx & ctx, const char * form, int n, bool named, void (*bind)(const MConf &), std::vector<int> (*value)(const Injector &)) {
	for (int omit = -1; omit < n; ++omit) {
		auto text = [&] { return std::string(form) + " with " + std::to_string(n) + " dependencies" + (omit < 0 ? "" : ", binding " + std::to_string(omit) + " absent"); };
		if (!ctx.begin(text)) continue;
		std::vector<int> want, u, v;
		for (int i = 0; i < n; ++i) want.push_back(1000 + i);
		auto r = attempt([&] {
			auto i = Injector::create(MConf(omit, named, bind));
			u = i->getUnique<Made>()->all();
			v = value(*i);
		});
		std::string verdict = omit < 0 ? "accepted" : "missing";
		ctx.check(r == verdict, text(), [&] { return r + ", expected " + verdict; });
		if (omit < 0) ctx.check(u == want && v == want, text() + ": members", [] { return std::string("a member does not have its own dependency"); });
		ctx.transitions += 2;
		ctx.nontrivial(vk::hash(text()));
		ctx.outcome(form);
	}
}
void macros(vk::Ctx & ctx) {
	macros0(ctx);
	macros1(ctx);
	macros2(ctx);
	macros3(ctx);
	macros4(ctx);
	macros5(ctx);
	macros6(ctx);
	macros7(ctx);
	macros8(ctx);
	macros9(ctx);
}
