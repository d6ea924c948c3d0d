// P42: the directories of the user and of the application, in every environment. Each case runs in a process of its own.
#include <cerrno>
#include <csignal>
#include <fcntl.h>
#include <pwd.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
#include <boost/predef.h>
#include <boost/core/demangle.hpp>
#include <Balau/Resource/File.hpp>
#include <Balau/Util/App.hpp>
#include <Balau/Util/User.hpp>
#include "vk.hpp"
using namespace vk;
using S = std::string;
Ctx * C;

// The user database, as the code under test sees it.
struct Db { bool present = true; size_t needs = 1; int error = 0; S name = "somebody", dir = "/home/somebody"; int calls = 0; } db;
static passwd entry;
static void fill(passwd & p) { static S n, d; n = db.name; d = db.dir; memset(&p, 0, sizeof p); p.pw_name = &n[0]; p.pw_dir = &d[0]; p.pw_uid = getuid(); static char e[] = ""; p.pw_passwd = p.pw_gecos = p.pw_shell = e; }
extern "C" passwd * getpwuid(uid_t) { errno = 0; if (db.error) { errno = db.error; return nullptr; } if (!db.present) return nullptr; fill(entry); return &entry; }
extern "C" int getpwuid_r(uid_t, passwd * p, char * buf, size_t size, passwd ** result) {
	++db.calls; *result = nullptr;
	memset(buf, 'x', size);   // The buffer really has this size.
	if (db.error) return db.error;
	if (!db.present) return 0;
	if (size < db.needs) return ERANGE;
	fill(*p); *result = p; return 0;
}

enum { HOME, NAME, DATA, GDATA, CONFIG, GCONFIG, RUNTIME, COUNT };
const char * NAMES[] = { "getHomeDirectory", "getUserName", "getUserApplicationDataDirectory", "getGlobalApplicationDataDirectory", "getUserApplicationConfigDirectory", "getGlobalApplicationConfigDirectory", "getApplicationRuntimeDataDirectory" };
S call(int what, const S & g, const S & a) {
	using Balau::Util::App; using Balau::Util::User;
	try {
		switch (what) {
			case HOME: return User::getHomeDirectory().toRawString();
			case NAME: return User::getUserName();
			case DATA: return App::getUserApplicationDataDirectory(g, a).toRawString();
			case GDATA: return App::getGlobalApplicationDataDirectory(g, a).toRawString();
			case CONFIG: return App::getUserApplicationConfigDirectory(g, a).toRawString();
			case GCONFIG: return App::getGlobalApplicationConfigDirectory(g, a).toRawString();
			default: return App::getApplicationRuntimeDataDirectory(g, a).toRawString();
		}
	}
	catch (const Balau::Exception::UserNotFoundException &) { return "!user"; }
	catch (const Balau::Exception::BalauException & e) { return "!" + e.message; }
	catch (const std::exception & e) { return S("!std ") + e.what(); }
}
struct Case {
	int what;
	const char * home = "/h/me"; const char * xdg = nullptr; const char * tmp = nullptr;   // nullptr: not defined.
	S group = "Group", app = "App";
	Db d;
};
S show(const char * v) { return v ? q(v) : S("undefined"); }
S text(const Case & c) {
	return S(NAMES[c.what]) + ", HOME " + show(c.home) + ", XDG " + show(c.xdg) + ", TMPDIR " + show(c.tmp) + ", " + q(c.group) + " " + q(c.app)
		+ (c.d.error ? ", error " + std::to_string(c.d.error) : !c.d.present ? S(", no entry") : ", entry of " + std::to_string(c.d.needs) + " bytes, name " + q(c.d.name) + ", directory " + q(c.d.dir));
}
void environment(const Case & c) {
	auto set = [] (const char * n, const char * v) { if (v) setenv(n, v, 1); else unsetenv(n); };
	set("HOME", c.home);
	set("XDG_DATA_HOME", c.what == DATA ? c.xdg : "/not/data"); set("XDG_CONFIG_HOME", c.what == CONFIG ? c.xdg : "/not/config"); set("XDG_RUNTIME_DIR", c.what == RUNTIME ? c.xdg : "/not/runtime");
	set("TMPDIR", c.tmp);
	db = c.d; db.calls = 0;
}
// What the case gives, a second time with other names and environment, and (runtime) whether the directory exists.
bool run(const Case & c, S & first, S & second, S & made, bool retry) {
	int p[2]; if (pipe(p)) abort();
	fflush(nullptr);
	pid_t pid = fork();
	if (!pid) {
		alarm(6);
		close(p[0]);
		environment(c);
		S a = call(c.what, c.group, c.app), b, m = "-";
		struct stat st;
		if (c.what == RUNTIME && a[0] != '!') m = stat(a.c_str(), &st) == 0 && S_ISDIR(st.st_mode) ? "made" : "missing";
		Case other = c; other.home = "/other/home"; other.xdg = c.what == RUNTIME ? c.xdg : "/other/xdg"; other.d = Db();
		if (retry) environment(other);
		b = call(c.what, retry ? S("Other") : c.group, retry ? S("Names") : c.app);
		S all = a + '\n' + b + '\n' + m + '\n';
		if (write(p[1], all.data(), all.size()) < 0) {}
		_exit(0);
	}
	close(p[1]);
	S all; char buf[4096]; ssize_t n;
	while ((n = read(p[0], buf, sizeof buf)) > 0) all.append(buf, (size_t) n);
	close(p[0]);
	int st; waitpid(pid, &st, 0);
	if (!WIFEXITED(st) || WEXITSTATUS(st)) { first = WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM ? "(never ends)" : "(dies: " + std::to_string(st) + ")"; return false; }
	std::istringstream in(all); std::getline(in, first); std::getline(in, second); std::getline(in, made);
	return true;
}
S trimmed(S s) { auto sp = [] (char c) { return c == ' ' || c == '\t' || c == '\n'; }; while (!s.empty() && sp(s.back())) s.pop_back(); while (!s.empty() && sp(s[0])) s.erase(0, 1); return s; }
S join(S a, const S & b) { if (!a.empty() && a.back() != '/') a += '/'; return a + b; }
bool usable(const char * v) { return v && !trimmed(v).empty(); }
S homeOf(const Case & c, bool & open) {
	if (usable(c.home)) return trimmed(c.home);
	if (c.d.error || !c.d.present) return "!user";
	if (c.d.needs > 65536) open = true;   // Very large entries may be given up on.
	return c.d.dir;
}

void judge(const Case & c, const S & program) {
	static int hung = 0; if (hung > 2) return;   // Enough seen.
	C->beat(); ++C->traces;
	auto bad = [&] (const S & what) { C->violation(NAMES[c.what], text(c) + ": " + what); };
	std::vector<S> want; bool open = false;   // Any of these.
	auto both = [&] (const S & base, const S & rest) { if (!base.empty() && base[0] == '!') want.push_back(base); else want.push_back(join(base, rest)); };
	S ga = c.group + "/" + c.app;
	switch (c.what) {
		case HOME: want.push_back(homeOf(c, open)); break;
		case NAME: want.push_back(c.d.error || !c.d.present ? S("!user") : c.d.name); break;
		case DATA: case CONFIG:
			if (usable(c.xdg)) { both(trimmed(c.xdg), ga); both(c.xdg, ga); }
			else both(homeOf(c, open), (c.what == DATA ? ".local/share/" : ".config/") + ga);
			break;
		case GDATA: want.push_back(program + "/share/" + ga + "/data"); break;
		case GCONFIG: want.push_back(program + "/share/" + ga + "/config"); break;
		case RUNTIME:
			if (usable(c.xdg)) both(trimmed(c.xdg), ga);
			else if (usable(c.tmp)) both(trimmed(c.tmp), ga);
			else if (c.d.error || !c.d.present) want.push_back("!user");
			else both("/tmp/" + c.d.name, ga);
			break;
	}
	for (int retry = 0; retry < 2; ++retry) {
		S first, second, made;
		if (!run(c, first, second, made, retry)) { ++hung; bad(first); return; }
		++C->transitions;
		bool ok = std::find(want.begin(), want.end(), first) != want.end() || (open && first[0] == '!');
		if (!ok) bad("gave " + q(first) + " and not " + q(want[0]));
		if (c.what == RUNTIME && first[0] != '!' && made != "made") bad("the directory was not created");
		if (!retry && second != first) bad("gave " + q(first) + " and then " + q(second));
		// A directory of the application stays as it was first; what failed is tried again.
		if (retry && c.what >= DATA && first[0] != '!' && second != first) bad("gave " + q(first) + " and later " + q(second));
		if (retry && c.what >= DATA && c.what != RUNTIME && first[0] == '!' && second[0] == '!') bad("failed and fails again when the environment is right");
		C->nontrivial(hash(text(c)) + (uint64_t) retry);
	}
}

int main(int argc, char ** argv) {
	Ctx ctx(argc, argv); C = &ctx;
	char exe[4096]; ssize_t n = readlink("/proc/self/exe", exe, sizeof exe - 1); exe[n < 0 ? 0 : n] = 0;
	S program(exe); for (int k = 0; k < 2; ++k) program = program.substr(0, program.rfind('/'));
	S base = ctx.scratch + "/p42"; mkdir(base.c_str(), 0700);
	std::vector<const char *> homes = { "/h/me", "/h/me/", "/", " /h/me", "/h/me  ", "/h/a b", "/h/\xc3\xa9", "relative/home", nullptr, "", " ", "   " };
	std::vector<std::pair<S, S>> names = { { "Group", "App" }, { "A b", "c.d" }, { "\xc3\xa9", "x" } };
	std::vector<Db> dbs;
	for (size_t needs : { 1, 511, 512, 513, 1023, 1024, 1025, 2048, 2049, 5000, 65536, 300000, 1048576, 3000000 }) { Db d; d.needs = needs; dbs.push_back(d); }
	for (const char * dir : { "/", "/root", "/home/a b", "/home/\xc3\xa9/" }) for (const char * name : { "root", "a b", "x" }) { Db d; d.dir = dir; d.name = name; dbs.push_back(d); }
	{ Db d; d.present = false; dbs.push_back(d); for (int e : { EIO, EMFILE, ENFILE, ENOMEM }) { d.error = e; dbs.push_back(d); } }
	for (int what = 0; what < COUNT; ++what) for (auto home : homes) for (size_t g = 0; g < names.size(); ++g) {
		if (what < DATA && g) continue;
		if (!ctx.begin([&] { return S(NAMES[what]) + " with HOME " + show(home) + " for " + names[g].first; })) continue;
		Case c; c.what = what; c.home = home; c.group = names[g].first; c.app = names[g].second;
		if (what == GDATA || what == GCONFIG) { judge(c, program); continue; }
		bool small = !ctx.thorough() && (usable(home) || g);
		for (size_t k = 0; k < dbs.size(); k += small ? 5 : 1) {
			c.d = dbs[k];
			if (what == HOME || what == NAME) { judge(c, program); continue; }
			if (what != RUNTIME) { for (const char * x : { (const char *) nullptr, "", " ", "/x/dg", " /x/dg", "/x/dg/", "/x d/g" }) { c.xdg = x; judge(c, program); } continue; }
			if (k % 5) continue;
			S in = base + "/" + std::to_string(getpid()) + "_" + std::to_string(k), x1 = in + "/run", x2 = " " + in + "/r n ", t1 = in + "/tmp", t2 = in + "/t m/";
			for (const char * x : { (const char *) nullptr, "", "  ", x1.c_str(), x2.c_str() }) for (const char * t : { (const char *) nullptr, "", " ", t1.c_str(), t2.c_str() }) {
				c.xdg = x; c.tmp = t;
				c.d.name = "vkP42_" + std::to_string(getpid());   // Without both it is in /tmp/NAME, removed below.
				judge(c, program);
			}
			boost::system::error_code ec; boost::filesystem::remove_all("/tmp/vkP42_" + std::to_string(getpid()), ec); boost::filesystem::remove_all(in, ec);
		}
	}
	boost::system::error_code ec; boost::filesystem::remove_all(base, ec);
	ctx.finish();
	return 0;
}
