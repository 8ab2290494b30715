// VF variant: fast
// Generated programs using the headers: what has to compile does, what has to be refused is, line by line.
#include "vf.h"
#include <map>
#include <set>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
using namespace vf;
VF_PROPERTY("C34", "exploration", "the program contains a use that must be accepted and one that must be refused, or at least two headers or uses");
VF_ASSUME("gcc and clang in GNU C modes from C99 and C++ modes from C++11");

namespace {
typedef std::string S;
struct Cc { const char *cmd; bool cpp; };
const std::vector<Cc> ccs = {{"gcc -std=gnu11", false}, {"clang -std=gnu11", false}, {"gcc -std=gnu99", false}, {"clang -std=gnu99", false}, {"gcc -std=gnu17", false}, {"clang -std=gnu17", false},
	{"g++ -x c++ -std=gnu++11", true}, {"clang++ -x c++ -std=gnu++11", true}, {"g++ -x c++ -std=gnu++17", true}, {"clang++ -x c++ -std=gnu++17", true}, {"g++ -x c++ -std=c++20", true}, {"clang++ -x c++ -std=c++20", true}};
const Cc &c_only() { return ccs[draw(5)]; }
S num(long long n) { return std::to_string(n); }
void put(const S &p, const S &s)
{
	FILE *f = fopen(p.c_str(), "w");
	if (!f || fwrite(s.data(), 1, s.size(), f) != s.size())
		fail("harness: cannot write %s", p.c_str());
	fclose(f);
}
S get(const S &p)
{
	S s;
	char b[4096];
	FILE *f = fopen(p.c_str(), "r");
	for (size_t n; f && (n = fread(b, 1, sizeof b, f)) > 0;)
		s.append(b, n);
	if (f)
		fclose(f);
	return s;
}
int sh(const S &c)
{
	int r = system(c.c_str());
	if (r == -1 || WIFSIGNALED(r) || WEXITSTATUS(r) == 127)
		fail("harness: %s: status %d", c.c_str(), r);
	return WEXITSTATUS(r);
}
// lines of the source file with an error, and what the compiler said
std::set<int> errors(const S &src, const S &flags, S *said, int *status = nullptr)
{
	S p = scratch() + "/e.c";
	put(p, src);
	int st = sh(flags + (flags[0] == 'g' ? " -ftrack-macro-expansion=0" : "") + " -I" VF_REPO_INC " -I" VF_STUB_INC " -fno-diagnostics-color -fsyntax-only " + p + " 2>" + scratch() + "/e.err");
	*said = get(scratch() + "/e.err");
	std::set<int> l;
	size_t i = 0;
	while (i < said->size()) {
		size_t e = said->find('\n', i);
		if (e == S::npos)
			e = said->size();
		S line = said->substr(i, e - i);
		i = e + 1;
		if (line.compare(0, p.size() + 1, p + ":") || line.find("error:") == S::npos)
			continue;
		l.insert(atoi(line.c_str() + p.size() + 1));
	}
	if (status)
		*status = st;
	unlink(p.c_str());
	unlink((scratch() + "/e.err").c_str());
	return l;
}
S lines(const std::set<int> &s)
{
	S r;
	for (int i : s)
		r += " " + num(i);
	return r.empty() ? " none" : r;
}
S line_of(const S &src, int n)
{
	size_t i = 0;
	while (--n > 0 && (i = src.find('\n', i)) != S::npos)
		i++;
	return i == S::npos ? "" : src.substr(i, src.find('\n', i) - i);
}
void compare(const S &src, const S &cc, const std::set<int> &want, const char *what)
{
	S said;
	int st;
	std::set<int> got = errors(src, cc, &said, &st);
	for (int l : want)
		VF_CHECK(got.count(l), "%s: accepted by %s: %s", what, cc.c_str(), line_of(src, l).c_str());
	for (int l : got)
		VF_CHECK(want.count(l), "%s: refused by %s: %s\n%s", what, cc.c_str(), line_of(src, l).c_str(), said.substr(0, 600).c_str());
	VF_CHECK((st != 0) == !want.empty(), "%s: %s ends with %d\n%s", what, cc.c_str(), st, said.substr(0, 600).c_str());
}
int line_count(const S &s)
{
	int n = 1;
	for (char c : s)
		n += c == '\n';
	return n;
}
// an integer constant expression and its value; top: to be used as a macro argument without parentheses
struct E { S t; long long v; };
E expr(int depth)
{
	if (depth <= 0 || chance(1, 4)) {
		switch (draw(5)) {
		case 0: return {"sizeof(char)", 1};
		case 1: return {"sizeof(long long)", 8};
		case 2: return {"(int)sizeof(short)", 2};
		default: { long long v = (long long)draw(9); return {num(v), v}; }
		}
	}
	E a = expr(depth - 1), b = expr(depth - 1);
	auto p = [](const E &e) { return "(" + e.t + ")"; };
	auto i = [](const E &e) { return "(int)(" + e.t + ")"; };
	switch (draw(9)) {
	case 0: return {p(a) + " == " + p(b), a.v == b.v};
	case 1: return {p(a) + " != " + p(b), a.v != b.v};
	case 2: return {i(a) + " < " + i(b), a.v < b.v};
	case 3: return {p(a) + " || " + p(b), a.v || b.v};
	case 4: return {p(a) + " && " + p(b), a.v && b.v};
	case 5: return {"!" + p(a), !a.v};
	case 6: { E c = expr(depth - 1); return {p(a) + " ? " + i(b) + " : " + i(c), a.v ? b.v : c.v}; }
	case 7: return {i(a) + " + " + i(b), a.v + b.v};
	case 8: return {i(a) + " - " + i(b), a.v - b.v};
	default: return {i(a) + " * " + i(b), a.v * b.v};
	}
}
}

VF_FACET(static_assert_, 500, 4000, 0, 120)
{
	const Cc &c = pick(ccs);
	S src = "#include <futils/futils.h>\n";
	std::set<int> bad;
	static const char *nm[] = {"FUTILS_STATIC_ASSERT", "STATIC_ASSERT"};
	size_t n = 1 + draw(14);
	bool good = false;
	for (size_t k = 0; k < n; k++) {
		E e = expr((int)draw(3));
		bool in = chance(1, 3);
		S u = S(nm[draw(1)]) + "(" + e.t + ", \"check " + num((long long)k) + "\");";
		if (in)
			u = "int f" + num((long long)k) + "(void); int f" + num((long long)k) + "(void) { " + u + " return " + num((long long)k) + "; }";
		if (!e.v)
			bad.insert(line_count(src));
		else
			good = true;
		note("%s: %s", e.v ? "accepted" : "refused", u.c_str());
		src += u + "\n";
	}
	S cmd = S(c.cmd) + " -w" + (strncmp(c.cmd, "clang", 5) ? "" : " -ferror-limit=0");
	compare(src, cmd, bad, "static assertion");
	if (good && !bad.empty())
		nontrivial();
}

VF_FACET(texts, 400, 4000, 0, 120)
{
	const Cc &c = pick(ccs);
	S src = "#include <stdio.h>\n#include <string.h>\n#include <futils/futils.h>\n", body;
	static const std::vector<S> toks = {"1", "42", "foo", "bar_2", "+", "-", "0x1F", "3.5e2", "\"text\"", "\"a\\n\"", "'c'", "(", ")", "==", "while", "[", "]", ".", "u8", "<<"};
	size_t n = 1 + draw(8);
	for (size_t k = 0; k < n; k++) {
		// a chain of macros of the given length ends in a list of tokens
		S text;
		int open = 0;
		for (size_t m = 1 + draw(5); m--;) {
			S t = pick(toks);
			if (t == ")" && !open)
				t = "(";
			open += t == "(" ? 1 : t == ")" ? -1 : 0;
			text += (text.empty() ? "" : " ") + t;
		}
		while (open-- > 0)
			text += " )";
		size_t depth = draw(3);
		S name = "M" + num((long long)k) + "_";
		for (size_t d = 0; d < depth; d++)
			src += "#define " + name + num((long long)d) + " " + (d ? name + num((long long)d - 1) : text) + "\n";
		S arg = depth ? name + num((long long)depth - 1) : text;
		bool direct = chance(1, 4); // not expanded
		S want = direct ? arg : text, lit = "\"";
		// the text of string and character literals is escaped in the result
		for (char ch : want) {
			if (ch == '"' || ch == '\\')
				lit += '\\';
			lit += ch;
		}
		lit += "\"";
		S use = S(direct ? "FUTILS_STRINGIFY" : chance(1, 2) ? "TOSTRING" : "FUTILS_TOSTRING") + "(" + arg + ")";
		note("%s is %s", use.c_str(), lit.c_str());
		body += "\tif (strcmp(" + use + ", " + lit + ") || sizeof(" + use + ") != sizeof(" + lit + ") || strcmp(\"<\" " + use + " \">\", \"<\" " + lit + " \">\"))\n\t\treturn printf(\"%s\\n\", " + use + "), 1;\n";
	}
	src += "int main(void) {\n" + body + "\treturn 0;\n}\n";
	S p = scratch() + "/t";
	put(p + ".c", src);
	int st = sh(S(c.cmd) + " -w -I" VF_REPO_INC " -I" VF_STUB_INC " " + p + ".c -o " + p + ".exe 2>" + p + ".err");
	VF_CHECK(st == 0, "text of a token: refused by %s: %s", c.cmd, get(p + ".err").substr(0, 800).c_str());
	st = sh(p + ".exe >" + p + ".err");
	VF_CHECK(st == 0, "text of a token: %s: wrong text %s", c.cmd, get(p + ".err").c_str());
	unlink((p + ".c").c_str());
	unlink((p + ".exe").c_str());
	unlink((p + ".err").c_str());
	if (n > 1)
		nontrivial();
}

VF_FACET(member_types, 400, 3000, 0, 120)
{
	const Cc &c = c_only();
	static const std::vector<S> ty = {"char", "unsigned char", "short", "int", "unsigned int", "long", "unsigned long", "long long", "float", "double", "char *", "void *", "int **", "struct in", "enum en", "int (*)(int)", "char [3]", "int [2][5]", "const int", "_Bool"};
	S src = "#include <stdint.h>\n#include <futils/futils.h>\nstruct in { int a; char b; };\nenum en { E0, E1 };\n";
	auto decl = [](const S &t, const S &n) {
		size_t i = t.find("(*)");
		if (i != S::npos)
			return t.substr(0, i) + "(*" + n + ")" + t.substr(i + 3);
		i = t.find('[');
		return i == S::npos ? t + " " + n : t.substr(0, i) + n + t.substr(i);
	};
	size_t n = 1 + draw(7);
	std::set<int> bad;
	S st = "struct s {";
	std::vector<S> m;
	for (size_t k = 0; k < n; k++) {
		m.push_back(pick(ty));
		st += " " + decl(m.back(), "m" + num((long long)k)) + ";";
	}
	src += st + " struct { int x; " + decl(m[0], "deep") + "; } sub; };\n";
	bool good = false;
	for (size_t k = 0; k < 2 * n; k++) {
		size_t i = draw(n - 1);
		bool deep = chance(1, 5);
		S t = deep ? m[0] : m[i], u = chance(1, 2) ? t : pick(ty);
		S mem = deep ? "sub.deep" : "m" + num((long long)i);
		// compatible exactly when the types are the same; const at the top does not count, and the enumeration is an unsigned int
		auto canon = [](S x) { return x == "const int" ? S("int") : x == "enum en" ? S("unsigned int") : x; };
		bool same = canon(t) == canon(u);
		int l = line_count(src);
		if (chance(1, 3)) {
			// declaring the same thing with both types
			S v = "v" + num((long long)k);
			bool ex = t == u || ((t == "enum en" || u == "enum en") && same && (t == "unsigned int" || u == "unsigned int"));
			src += "extern TYPEOF_STRUCT_MEMBER(struct s, " + mem + ") " + v + "; extern " + decl(u, v) + ";\n";
			if (!ex)
				bad.insert(l);
			else
				good = true;
		} else {
			src += "int a" + num((long long)k) + "[__builtin_types_compatible_p(TYPEOF_STRUCT_MEMBER(struct s, " + mem + "), " + u + ") ? 1 : -1];\n";
			if (!same)
				bad.insert(l);
			else
				good = true;
		}
	}
	note("%s", src.c_str());
	S cmd = S(c.cmd) + " -w" + (strncmp(c.cmd, "clang", 5) ? "" : " -ferror-limit=0");
	compare(src, cmd, bad, "type of a member");
	if (good && !bad.empty())
		nontrivial();
}

VF_FACET(formats, 400, 4000, 0, 120)
{
	const Cc &c = pick(ccs);
	// the library's own function of this kind is among those called
	bool lib = chance(1, 3);
	S src = S("#include <stdarg.h>\n#include <stdio.h>\n") + (lib && chance(1, 2) ? "#include <futils/safew.h>\n" : "") + "#include <futils/futils.h>\n";
	if (c.cpp)
		src += "extern \"C\" {\n";
	struct F { size_t before, between; bool va; };
	std::vector<F> fs(1 + draw(3));
	for (size_t k = 0; k < fs.size(); k++) {
		if (lib && k == 0) {
			fs[k] = {0, 0, false};
			continue;
		}
		fs[k] = {draw(3), draw(2), chance(1, 6)};
		S d = "extern int f" + num((long long)k) + "(";
		for (size_t i = 0; i < fs[k].before; i++)
			d += "int, ";
		d += "const char *";
		for (size_t i = 0; i < fs[k].between && !fs[k].va; i++)
			d += ", long";
		d += fs[k].va ? ", va_list" : ", ...";
		size_t x = fs[k].before + 1;
		src += d + ") FUTILS_ATTRIBUTE_FORMAT_PRINTF(" + num((long long)x) + ", " + (fs[k].va ? S("0") : num((long long)(x + 1 + fs[k].between))) + ");\n";
	}
	if (c.cpp)
		src += "}\n";
	src += "void use(va_list ap);\nvoid use(va_list ap)\n{\n";
	struct A { const char *dir, *arg; int cls; };
	static const std::vector<A> as = {{"%d", "1", 0}, {"%i", "'c'", 0}, {"%s", "\"t\"", 1}, {"%f", "1.5", 2}, {"%lu", "5ul", 3}, {"%llx", "7ull", 4}, {"%p", "(void *)0", 5}, {"%g", "2.0", 2}};
	std::set<int> bad;
	bool good = false;
	size_t n = 1 + draw(11);
	for (size_t k = 0; k < n; k++) {
		size_t fi = draw(fs.size() - 1);
		const F &f = fs[fi];
		S fm = "n=", args;
		bool wrong = false;
		size_t m = f.va ? draw(1) : draw(4);
		for (size_t i = 0; i < m; i++) {
			const A &a = pick(as), *b = &a;
			if (!f.va && chance(1, 6)) { // an argument of another kind
				b = &as[(size_t)(&a - &as[0] + 1 + (long)draw(as.size() - 2)) % as.size()];
				wrong = wrong || (b->cls != a.cls && !(a.cls == 5 && b->cls == 1)); // any address is fine for %p
			}
			fm += S(i ? " " : "") + a.dir;
			if (!f.va)
				args += S(", ") + b->arg;
		}
		if (!f.va && m && chance(1, 8)) { // one missing
			args.resize(args.rfind(", "));
			wrong = true;
		}
		if (f.va && chance(1, 4)) {
			fm += " %y"; // no such directive
			wrong = true;
		}
		S u = lib && fi == 0 ? S("\tfutils_safew_fprintf((struct futils_safew_file *)0, ") : "\tf" + num((long long)fi) + "(";
		for (size_t i = 0; i < f.before; i++)
			u += num((long long)i) + ", ";
		u += "\"" + fm + "\"";
		for (size_t i = 0; i < f.between && !f.va; i++)
			u += ", 3l";
		u += (f.va ? S(", ap") : args) + ");";
		note("%s: %s", wrong ? "refused" : "accepted", u.c_str());
		if (wrong)
			bad.insert(line_count(src));
		else
			good = true;
		src += u + "\n";
	}
	src += "}\n";
	S cmd = S(c.cmd) + " -w -Wformat -Wno-format-extra-args -Wno-format-zero-length -Werror=format" + (strncmp(c.cmd, "clang", 5) ? "" : " -ferror-limit=0 -Werror=format-invalid-specifier -Werror=format-insufficient-args");
	// -w silences everything in gcc, also what is made an error
	cmd.erase(cmd.find(" -w "), 3);
	compare(src, cmd, bad, "call with a format");
	if (good && !bad.empty())
		nontrivial();
}

VF_FACET(copying, 160, 3000, 0, 120)
{
	static const std::vector<const char *> cx = {"g++ -std=c++11", "clang++ -std=c++11", "g++ -std=c++17", "clang++ -std=c++17", "g++ -std=c++20", "clang++ -std=c++20"};
	S cc = pick(cx);
	S src = "#include <type_traits>\n#include <utility>\n#include <futils/futils.hpp>\n";
	static const std::vector<S> fields = {"int a = 1;", "char b[20];", "double c = 2.5;", "const char *d = \"x\";", ""};
	size_t n = 1 + draw(4);
	std::vector<S> defs;
	for (size_t k = 0; k < n; k++) {
		S cl = "K" + num((long long)k), f = pick(fields);
		bool marked = chance(3, 4), tmpl = chance(1, 4), first = chance(1, 2), nested = chance(1, 4);
		S mark = marked ? "FUTILS_DISABLE_COPY(" + cl + ")" : "";
		S body = (first ? mark + "\npublic:\n" : "") + cl + "(int v) : n(v) {}\nint n;\n" + f + "\n" + (first ? "" : mark);
		S def = (tmpl ? "template <class T> " : "") + S(first ? "class " : "struct ") + cl + " {\n" + body + "\n};\n";
		if (nested)
			def = "namespace in" + num((long long)k) + " {\n" + def + "}\n";
		src += def;
		S use = (nested ? "in" + num((long long)k) + "::" : S()) + cl + (tmpl ? "<long>" : "");
		S no = marked ? "!" : "";
		src += "struct D" + num((long long)k) + " : " + use + " { D" + num((long long)k) + "() : " + use + "(1) {} };\n";
		src += "struct M" + num((long long)k) + " { " + use + " m; M" + num((long long)k) + "() : m(2) {} };\n";
		for (S x : {use, "D" + num((long long)k), "M" + num((long long)k)}) {
			src += "static_assert(" + no + "std::is_copy_constructible<" + x + " >::value, \"copying " + cl + "\");\n";
			src += "static_assert(" + no + "std::is_copy_assignable<" + x + " >::value, \"assigning " + cl + "\");\n";
			src += "static_assert(" + no + "std::is_move_constructible<" + x + " >::value, \"moving " + cl + "\");\n";
			src += "static_assert(" + no + "std::is_move_assignable<" + x + " >::value, \"moving " + cl + "\");\n";
		}
		src += "static_assert(std::is_constructible<" + use + ", int>::value && std::is_destructible<" + use + ">::value, \"making " + cl + "\");\n";
		src += "int u" + num((long long)k) + "() { " + use + " x(3); x.n = 4; " + (first || !marked ? "D" + num((long long)k) + " d; return d.n + x.n; }\n" : "return x.n; }\n");
		if (marked && n > 1)
			nontrivial();
	}
	note("%s:\n%s", cc.c_str(), src.c_str());
	compare(src, cc + " -x c++ -w", {}, "class that cannot be copied");
	// nor by its own members: there is nothing to link with
	if (chance(1, 3)) {
		static const std::vector<S> own = {"X dup() const { return X(*this); }", "void set(const X &o) { *this = o; }", "void nothing() {}"};
		size_t w = draw(2);
		S s = "#include <futils/futils.hpp>\nclass X {\nFUTILS_DISABLE_COPY(X)\npublic:\nX() {}\n" + own[w] + "\n};\nint main() { X a, b; " + (w == 0 ? "a.dup();" : w == 1 ? "a.set(b);" : "a.nothing();") + " return 0; }\n";
		S p = scratch() + "/l";
		put(p + ".cc", s);
		int st = sh(cc + " -w -I" VF_REPO_INC " " + p + ".cc -o " + p + ".exe 2>/dev/null");
		VF_CHECK((st == 0) == (w == 2), "class that cannot be copied: a member doing \"%s\" %s", own[w].c_str(), st ? "is refused" : "is accepted");
		unlink((p + ".cc").c_str());
		unlink((p + ".exe").c_str());
	}
}

static const std::vector<std::pair<S, std::vector<S>>> headers = {
	{"list.h", {}},
	{"fdutils.h", {"fd_set_close_on_exec", "fd_has_close_on_exec", "fd_add_flags"}},
	{"fs.h", {"futils_fs_dir_size"}},
	{"hash.h", {"futils_hash_init", "futils_hash_destroy", "futils_hash_insert", "futils_hash_insert_const", "futils_hash_remove", "futils_hash_remove_all", "futils_hash_lookup", "futils_hash_lookup_const"}},
	{"inotify.h", {"inotify_create", "inotify_destroy", "inotify_process_fd"}},
	{"mbox.h", {"mbox_new", "mbox_destroy", "mbox_get_read_fd", "mbox_push", "mbox_push_block", "mbox_peek"}},
	{"dynmbox.h", {"dynmbox_new", "dynmbox_destroy", "dynmbox_get_read_fd", "dynmbox_get_max_size", "dynmbox_push", "dynmbox_push_block", "dynmbox_peek"}},
	{"random.h", {"futils_random_strong", "futils_random", "futils_randomr8", "futils_randomr16", "futils_randomr32", "futils_randomr64", "futils_randomr8_maximum", "futils_randomr16_maximum", "futils_randomr32_maximum", "futils_randomr64_maximum", "futils_randomrd", "futils_randomrf", "futils_random_string", "futils_random_base16", "futils_random_base32", "futils_random_base64", "futils_random_shuffle", "futils_random_reseed"}},
	{"safew.h", {"futils_safew_fopen", "futils_safew_file_check", "futils_safew_fclose_rollback", "futils_safew_fclose_commit", "futils_safew_fclose_commit_with_crc", "futils_safew_fprintf", "futils_safew_fwrite"}},
	{"string.h", {"futils_string_sanitize_utf8", "futils_string_check_utf8"}},
	{"synctools.h", {"sync_file", "sync_folder", "sync_file_and_folder"}},
	{"systimetools.h", {"time_ctx_init", "time_ctx_set_date", "time_ctx_set_hour", "time_ctx_set_time", "time_ctx_get_local", "time_local_set", "time_local_get", "time_local_ms_get", "time_local_to_tm", "time_local_from_tm", "time_local_format", "time_local_parse"}},
	{"timetools.h", {"time_get_monotonic", "time_get_realtime", "time_timespec_diff", "time_timespec_diff_us", "time_timespec_diff_in_range", "time_timespec_to_ns", "time_timespec_to_us", "time_timespec_to_ms", "time_ms_to_timespec", "time_us_to_timespec", "time_ns_to_timespec", "time_timespec_diff_now", "time_timespec_cmp", "time_timespec_add_us", "time_timespec_add_ns", "time_timeval_to_timespec", "time_timeval_to_ms", "time_monotonic_to_realtime_us", "time_monotonic_to_realtime_ms", "time_msleep"}},
	{"varint.h", {"futils_varint_read_u16", "futils_varint_write_u16", "futils_varint_read_i16", "futils_varint_write_i16", "futils_varint_read_u32", "futils_varint_write_u32", "futils_varint_read_i32", "futils_varint_write_i32", "futils_varint_read_u64", "futils_varint_write_u64", "futils_varint_read_i64", "futils_varint_write_i64"}},
	{"futils.h", {}},
};
static const std::set<S> with_all = {"fdutils.h", "hash.h", "list.h", "timetools.h", "systimetools.h", "synctools.h", "mbox.h", "dynmbox.h", "random.h", "varint.h", "safew.h", "string.h"};
VF_FACET(headers_, 700, 5000, 0, 120)
{
	const Cc &c = pick(ccs);
	S src;
	std::set<S> in, names;
	std::map<S, int> own;
	bool disable = false;
	static const std::vector<S> macros = {"MIN", "MAX", "BOUND", "SIZEOF_ARRAY", "TOSTRING", "STATIC_ASSERT", "TYPEOF_STRUCT_MEMBER"};
	if (chance(1, 3)) // names the program has already are left alone
		for (size_t k = 1 + draw(2); k--;) {
			S m = pick(macros);
			if (own.emplace(m, (int)draw(1000)).second)
				src += "#define " + m + "(...) " + num(own[m]) + "\n";
		}
	size_t n = 1 + draw(chance(1, 2) ? 0 : 5);
	bool wrap = c.cpp && chance(1, 4); // from within a C linkage block, as C++ programs sometimes do
	static const std::vector<S> hpp = {"futils.hpp", "fs.hpp", "string.hpp"};
	auto plus = [&] {
		S h = c.cpp ? pick(hpp) : hpp[0]; // the first one may be included by C programs, to no effect
		src += "#include <futils/" + h + ">\n";
		if (h == hpp[0] && c.cpp)
			disable = true;
	};
	while (chance(1, 4))
		plus();
	if (wrap)
		src += "extern \"C\" {\n";
	for (size_t k = 0; k < n; k++) {
		const S &h = headers[cycle(0) + draw(headers.size() - 1)].first;
		in.insert(h);
		src += "#include <futils/" + h + ">\n";
	}
	if (wrap)
		src += "}\n";
	while (chance(1, 4))
		plus();
	if (disable)
		src += "class only { public: only(); FUTILS_DISABLE_COPY(only) };\n";
	if (in.count("futils.h"))
		in.insert(with_all.begin(), with_all.end());
	src += "typedef void (*any)(void);\nextern any table[];\nany table[] = {\n";
	for (auto &h : headers)
		if (in.count(h.first))
			for (auto &f : h.second)
				if (n == 1 || chance(2, 3)) {
					names.insert(f);
					src += "\t(any)&" + f + ",\n";
				}
	src += "\t0 };\n";
	if (in.count("futils.h"))
		for (auto &o : own)
			src += "typedef char own_" + o.first + "[" + o.first + "(1, 2) == " + num(o.second) + " ? 1 : -1];\n";
	note("%s: %s", c.cmd, src.substr(0, 600).c_str());
	S p = scratch() + "/h";
	put(p + ".c", src);
	int st = sh(S(c.cmd) + " -w -Werror=implicit-function-declaration -I" VF_REPO_INC " -I" VF_STUB_INC " -c " + p + ".c -o " + p + ".o 2>" + p + ".err");
	VF_CHECK(st == 0, "program including headers: refused by %s: %s\n%s", c.cmd, get(p + ".err").substr(0, 800).c_str(), src.substr(0, 500).c_str());
	sh("nm -u " + p + ".o >" + p + ".err");
	S und = get(p + ".err");
	std::set<S> got;
	for (size_t i = 0; i < und.size();) {
		size_t e = und.find('\n', i);
		S l = und.substr(i, e - i);
		i = e + 1;
		l = l.substr(l.rfind(' ') + 1);
		if (l.compare(0, 13, "_GLOBAL_OFFSE"))
			got.insert(l);
	}
	for (auto &f : names)
		VF_CHECK(got.count(f), "%s: %s does not refer to the C function of this name", c.cmd, f.c_str());
	for (auto &f : got)
		VF_CHECK(names.count(f) || f[0] == '_', "%s: including headers needs %s", c.cmd, f.c_str());
	unlink((p + ".c").c_str());
	unlink((p + ".o").c_str());
	unlink((p + ".err").c_str());
	if (n > 1 || names.size() > 1)
		nontrivial();
}
