// VF variant: fast
// Generated programs: random nestings of the helper macros over side-effecting operands are compiled with the
// library's header and run; expected values and evaluation counts come from an interpreter of the same expressions.
#include "vf.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <math.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
using namespace vf;
VF_PROPERTY("C31", "exploration", "the program contains a nested use of a helper with operands whose evaluation is counted");
VF_ASSUME("operands of different types have values which the C conversion to their common type preserves; no NaN; bounds are ordered");

namespace {
enum K { LEAF, MIN_, MAX_, BOUND_, OR_, AND_, XOR_, COND, LESS, COMMA };
struct Ex {
	K k;
	int leaf = -1;
	std::vector<Ex> a;
};
struct T { const char *name, *fmt; bool flt, sgn; unsigned bits; };
const T types[] = {
	{"int", "%ld", false, true, 32}, {"unsigned", "%luu", false, false, 32}, {"long", "%ldl", false, true, 64},
	{"unsigned long", "%luul", false, false, 64}, {"double", "%a", true, true, 64}, {"float", "%a", true, true, 32},
	{"short", "%ld", false, true, 16}, {"unsigned char", "%ld", false, false, 8}, {"signed char", "%ld", false, true, 8},
	{"unsigned short", "%ld", false, false, 16}, {"long long", "%ldll", false, true, 64},
};
struct V { bool flt; double d; int64_t i; uint64_t u; };
struct Gen {
	const T &t;
	std::vector<V> leaves;
	bool nested = false;
	explicit Gen(const T &x) : t(x) {}
	bool lt(const V &x, const V &y) { return t.flt ? x.d < y.d : t.sgn ? x.i < y.i : x.u < y.u; }
	V norm(uint64_t raw)
	{
		V v{};
		v.flt = t.flt;
		uint64_t m = t.bits == 64 ? ~0ull : (1ull << t.bits) - 1;
		raw &= m;
		if (t.sgn) {
			if (t.bits < 64 && (raw >> (t.bits - 1)))
				raw |= ~m;
			v.i = (int64_t)raw;
			v.u = raw;
		} else {
			v.u = raw;
			v.i = (int64_t)raw;
		}
		return v;
	}
	V value()
	{
		V v{};
		if (t.flt) {
			v.flt = true;
			switch (weighted({3, 2, 1, 1})) {
			case 0: v.d = (double)irange(-6, 6) / 4; break;
			case 1: v.d = ldexp((double)irange(-1000, 1000), (int)irange(-20, 20)); break;
			case 2: v.d = draw(1) ? 1e30 : -1e30; break;
			default: v.d = (float)1e-30 * (float)irange(-2, 2); break;
			}
			if (t.bits == 32)
				v.d = (float)v.d;
			return v;
		}
		if (!leaves.empty() && chance(1, 4))
			return leaves[draw(leaves.size() - 1)]; // ties
		return norm(draw(2) == 0 ? (uint64_t)irange(-3, 3) : anyint(64));
	}
	Ex gen(int depth, bool sub)
	{
		Ex e;
		e.k = LEAF;
		size_t w = depth <= 0 ? 0 : weighted({3, 5, 5, 4, 1, 1, 1, 1, 1, 1});
		e.k = (K)w;
		// narrow operands are promoted by operators, keep those plain
		bool wide = !t.flt && t.bits >= 32;
		if ((e.k == OR_ || e.k == AND_ || e.k == XOR_) && !wide)
			e.k = MIN_;
		if ((e.k == COND || e.k == LESS) && !wide && !t.flt)
			e.k = MAX_;
		if (e.k == LESS && (t.flt || t.bits != 32 || !t.sgn))
			e.k = MAX_;
		if (e.k == LEAF) {
			if (leaves.size() >= 200)
				leaves.pop_back();
			leaves.push_back(value());
			e.leaf = (int)leaves.size() - 1;
			return e;
		}
		if (sub && e.k <= BOUND_)
			nested = true;
		int n = e.k == BOUND_ || e.k == COND ? 3 : 2;
		for (int i = 0; i < n; i++)
			e.a.push_back(gen(depth - 1, e.k <= BOUND_));
		if (e.k == BOUND_) {
			std::vector<int> c(256);
			if (lt(eval(e.a[2], c), eval(e.a[1], c)))
				std::swap(e.a[1], e.a[2]);
		}
		return e;
	}
	V eval(const Ex &e, std::vector<int> &cnt)
	{
		switch (e.k) {
		case LEAF: cnt[e.leaf]++; return leaves[e.leaf];
		case MIN_: { V x = eval(e.a[0], cnt), y = eval(e.a[1], cnt); return lt(y, x) ? y : x; }
		case MAX_: { V x = eval(e.a[0], cnt), y = eval(e.a[1], cnt); return lt(x, y) ? y : x; }
		case BOUND_: {
			V x = eval(e.a[0], cnt), m = eval(e.a[1], cnt), M = eval(e.a[2], cnt);
			return lt(x, m) ? m : lt(M, x) ? M : x;
		}
		case OR_: { V x = eval(e.a[0], cnt), y = eval(e.a[1], cnt); return norm(x.u | y.u); }
		case AND_: { V x = eval(e.a[0], cnt), y = eval(e.a[1], cnt); return norm(x.u & y.u); }
		case XOR_: { V x = eval(e.a[0], cnt), y = eval(e.a[1], cnt); return norm(x.u ^ y.u); }
		case COND: {
			V c = eval(e.a[0], cnt);
			bool z = c.flt ? c.d == 0 : c.u == 0;
			return z ? eval(e.a[2], cnt) : eval(e.a[1], cnt);
		}
		case LESS: { V x = eval(e.a[0], cnt), y = eval(e.a[1], cnt); return norm(lt(x, y)); }
		case COMMA: eval(e.a[0], cnt); return eval(e.a[1], cnt);
		}
		return V{};
	}
	std::string lit(const V &v)
	{
		char b[80];
		if (t.flt)
			snprintf(b, sizeof b, "(%a)", v.d);
		else if (t.sgn)
			snprintf(b, sizeof b, "((%s)0x%lxul)", t.name, (unsigned long)v.u);
		else
			snprintf(b, sizeof b, "((%s)0x%lxul)", t.name, (unsigned long)v.u);
		return b;
	}
	// op of the enclosing context is lower than any macro argument needs: sub-expressions of operators get parentheses,
	// macro arguments do not (that is the point), except a comma
	std::string text(const Ex &e, bool arg, unsigned alias)
	{
		static const char *nm[2][3] = {{"FUTILS_MIN", "FUTILS_MAX", "FUTILS_BOUND"}, {"MIN", "MAX", "BOUND"}};
		auto m = [&](int k) {
			std::string s = std::string(nm[alias & 1][k]) + "(";
			for (size_t i = 0; i < e.a.size(); i++)
				s += (i ? ", " : "") + text(e.a[i], true, alias >> 1);
			return s + ")";
		};
		auto bin = [&](const char *op) {
			// macro calls as bare operands; operators inside operators are parenthesised
			std::string s = text(e.a[0], false, alias >> 1) + op + text(e.a[1], false, alias >> 1);
			return arg ? s : "(" + s + ")";
		};
		switch (e.k) {
		case LEAF: return "ev(" + std::to_string(e.leaf) + ")";
		case MIN_: return m(0);
		case MAX_: return m(1);
		case BOUND_: return m(2);
		case OR_: return bin(" | ");
		case AND_: return bin(" & ");
		case XOR_: return bin(" ^ ");
		case LESS: return bin(" < ");
		case COMMA: return "(" + text(e.a[0], false, alias >> 1) + ", " + text(e.a[1], false, alias >> 1) + ")";
		case COND: {
			std::string s = text(e.a[0], false, alias >> 1) + " ? " + text(e.a[1], false, alias >> 1) + " : " + text(e.a[2], false, alias >> 1);
			return arg ? s : "(" + s + ")";
		}
		}
		return "";
	}
};
}

VF_FACET(programs, 240, 6000, 0, 120)
{
	std::string src =
		"#include <stdio.h>\n#include <stdint.h>\n#include <stdlib.h>\n#include <string.h>\n#include <stddef.h>\n"
		"#include <futils/futils.h>\nstatic int cnt[256];\nstatic int bad(const char *w, const char *e) "
		"{ printf(\"%s: %s\\n\", w, e); return 1; }\n";
	std::string body;
	size_t nfn = range(1, 40);
	for (size_t f = 0; f < nfn; f++) {
		std::string fn = "f" + std::to_string(f), o;
		if (chance(1, 5)) {
			// structures and arrays
			static const char *mt[] = {"char", "double", "short", "void *", "long long", "int", "struct { char x; int y; }"};
			size_t nm = range(1, 8), k = draw(nm - 1);
			std::string st = "struct s" + std::to_string(f) + " {\n";
			for (size_t i = 0; i < nm; i++) {
				st += std::string("\t") + mt[draw(6)] + " m" + std::to_string(i);
				if (chance(1, 3))
					st += "[" + std::to_string(range(1, 9)) + "]";
				st += ";\n";
			}
			size_t d1 = range(1, 300), d2 = range(1, 20), et = draw(5);
			std::string ms = "m" + std::to_string(k);
			o += st + "};\nstatic int " + fn + "(void) {\n\tstatic struct s" + std::to_string(f) + " o[3], *p; int n = 0;\n";
			o += "\tstatic " + std::string(mt[et]) + " arr[" + std::to_string(d1) + "][" + std::to_string(d2) + "];\n";
			o += "\tp = FUTILS_CONTAINER_OF((n++, &o[1]." + ms + "), struct s" + std::to_string(f) + ", " + ms + ");\n";
			o += "\tif (p != &o[1] || n != 1) return bad(\"container-of " + ms + "\", \"s" + std::to_string(f) + "\");\n";
			o += "\tp = FUTILS_CONTAINER_OF(&o[2]." + ms + ", struct s" + std::to_string(f) + ", " + ms + ") - 1;\n";
			o += "\tif (p != o + 1) return bad(\"container-of in an expression\", \"\");\n";
			o += "\tif (SIZEOF_ARRAY(arr) != " + std::to_string(d1) + " || FUTILS_SIZEOF_ARRAY(arr[" + std::to_string(draw(d1 - 1)) + "]) != " +
				std::to_string(d2) + " || 2 * SIZEOF_ARRAY(arr) != " + std::to_string(2 * d1) + " || 1000000 % FUTILS_SIZEOF_ARRAY(arr) != " +
				std::to_string(1000000 % d1) + ") return bad(\"array length\", \"" + std::to_string(d1) + "\");\n";
			// an array of any length, only declared; the length is a constant usable for another array's
			uint64_t big = anyint(chance(1, 2) ? 20 : 44) | 1, wid = range(1, 200);
			std::string bs = std::to_string(big);
			o += "\textern char big" + fn + "[" + bs + "ul][" + std::to_string(wid) + "];\n\tif (FUTILS_SIZEOF_ARRAY(big" + fn + ") != " + bs +
				"ul || sizeof(char[SIZEOF_ARRAY(arr)]) != " + std::to_string(d1) + ") return bad(\"array length\", \"" + bs + "\");\n";
			o += "\treturn 0;\n}\n";
		} else if (chance(1, 4)) {
			// operands of different types, all of whose values the common type can hold
			o += "static int " + fn + "(void) {\n";
			size_t ne = range(1, 6);
			for (size_t e = 0; e < ne; e++) {
				size_t k = draw(2), n = k == 2 ? 3 : 2;
				const T *ty[3];
				bool uns = false, f32 = false, f64 = false;
				for (size_t i = 0; i < n; i++) {
					ty[i] = &types[draw(sizeof types / sizeof *types - 1)];
					uns |= !ty[i]->flt && !ty[i]->sgn && ty[i]->bits >= 32;
					f32 |= ty[i]->flt && ty[i]->bits == 32;
					f64 |= ty[i]->flt && ty[i]->bits == 64;
				}
				long double v[3];
				for (size_t i = 0; i < n; i++) {
					if (i && chance(1, 5) && !ty[i]->flt == !ty[i - 1]->flt && ty[i]->bits >= ty[i - 1]->bits && ty[i]->sgn == ty[i - 1]->sgn) {
						v[i] = v[i - 1];
						continue;
					}
					if (ty[i]->flt) {
						v[i] = (long double)irange(uns ? 0 : -4000, 4000) / (draw(1) ? 8 : 1) * (ty[i]->bits == 64 && !f32 && draw(1) ? 1125899906842624.0L : 1);
						continue;
					}
					unsigned b = ty[i]->bits - ty[i]->sgn;
					if (f32 && b > 24)
						b = 24;
					if (f64 && b > 53)
						b = 53;
					uint64_t m = draw(2) == 0 ? draw(5) : anyint(64);
					m &= b == 64 ? ~0ull : (1ull << b) - 1;
					v[i] = (long double)m;
					if (ty[i]->sgn && !uns && draw(1))
						v[i] = -v[i];
				}
				if (n == 3 && v[2] < v[1]) {
					std::swap(v[1], v[2]);
					std::swap(ty[1], ty[2]);
				}
				long double w = k == 0 ? (v[1] < v[0] ? v[1] : v[0]) : k == 1 ? (v[0] < v[1] ? v[1] : v[0]) :
					v[0] < v[1] ? v[1] : v[2] < v[0] ? v[2] : v[0];
				static const char *nm[] = {"FUTILS_MIN", "FUTILS_MAX", "FUTILS_BOUND", "MIN", "MAX", "BOUND"};
				std::string tx = std::string(nm[k + 3 * draw(1)]) + "(", d;
				char b[128];
				for (size_t i = 0; i < n; i++) {
					snprintf(b, sizeof b, "\t%s x%zu = (%s)%LaL;\n", ty[i]->name, i, ty[i]->name, v[i]);
					d += b;
					tx += std::string(i ? ", " : "") + "*(cnt[" + std::to_string(i) + "]++, &x" + std::to_string(i) + ")";
				}
				tx += ")";
				note("%s %s", d.c_str(), tx.c_str());
				snprintf(b, sizeof b, "%LaL", w);
				o += "\t{ memset(cnt, 0, sizeof cnt);\n" + d + "\tlong double r = " + tx + ";\n\tif (r != " + b + ") return bad(\"mixed types\", \"" ;
				for (size_t i = 0; i < n; i++) {
					snprintf(b, sizeof b, "%s%s %Lg", i ? ", " : "", ty[i]->name, v[i]);
					o += b;
				}
				o += std::string(": ") + nm[k] + "\");\n\tif (";
				for (size_t i = 0; i < n; i++)
					o += (i ? " || cnt[" : "cnt[") + std::to_string(i) + "] != 1";
				o += ") return bad(\"evaluations, mixed types\", \"" + std::string(nm[k]) + "\"); }\n";
			}
			o += "\treturn 0;\n}\n";
		} else {
			const T &t = types[draw(sizeof types / sizeof *types - 1)];
			Gen g(t);
			o += "static " + std::string(t.name) + " " + fn + "v[] = {";
			std::string stm;
			size_t ne = range(1, 6);
			for (size_t e = 0; e < ne; e++) {
				size_t first = g.leaves.size();
				Ex x = g.gen((int)range(1, 4), false);
				(void)first;
				std::vector<int> c(256);
				V v = g.eval(x, c);
				std::string tx = g.text(x, false, (unsigned)draw(255));
				note("%s: %s", t.name, tx.c_str());
				stm += "\tmemset(cnt, 0, sizeof cnt);\n\t{ " + std::string(t.name) + " r = " + tx + ", w = " + g.lit(v) + ";\n";
				stm += "\tif (!(r == w)) return bad(\"value\", \"" + std::string(t.name) + " " + tx + "\");\n";
				for (int i = 0; i < 256 && i < (int)g.leaves.size(); i++)
					if (c[i])
						stm += "\tif (cnt[" + std::to_string(i) + "] != " + std::to_string(c[i]) + ") return bad(\"evaluations\", \"" + tx + "\");\n";
				stm += "\tint tot = 0; for (int i = 0; i < 256; i++) tot += cnt[i];\n";
				int tot = 0;
				for (int i : c)
					tot += i;
				stm += "\tif (tot != " + std::to_string(tot) + ") return bad(\"evaluations\", \"" + tx + "\"); }\n";
			}
			if (g.nested)
				nontrivial();
			for (auto &v : g.leaves)
				o += g.lit(v) + ",";
			o += "};\nstatic int " + fn + "(void) {\n#define ev(i) (*(cnt[i]++, &" + fn + "v[i]))\n" + stm + "#undef ev\n\treturn 0;\n}\n";
		}
		src += o;
		body += "\tif (" + fn + "()) return 1;\n";
	}
	src += "int main(void) {\n" + body + "\treturn 0;\n}\n";
	static const char *cc[] = {"clang -std=gnu11 -O0", "gcc -std=gnu11 -O0", "clang -std=gnu11 -O1", "gcc -std=gnu11 -O2", "g++ -x c++ -std=gnu++14 -fpermissive -O0", "clang++ -x c++ -std=gnu++17 -O1"};
	std::string c = cc[draw(5)], p = scratch() + "/p";
	FILE *fp = fopen((p + ".c").c_str(), "w");
	fwrite(src.data(), 1, src.size(), fp);
	fclose(fp);
	unlink((p + ".exe").c_str());
	std::string cmd = c + " -w -I" VF_REPO_INC " -I" VF_STUB_INC " " + p + ".c -o " + p + ".exe 2>" + p + ".err";
	int r = system(cmd.c_str());
	if (r) {
		FILE *e = fopen((p + ".err").c_str(), "r");
		char b[1500] = "";
		if (e) {
			size_t n = fread(b, 1, sizeof b - 1, e);
			b[n] = 0;
			fclose(e);
		}
		fail("program using the helpers does not compile: %s", b);
	}
	FILE *q = popen((p + ".exe").c_str(), "r");
	char out[1500] = "";
	size_t n = fread(out, 1, sizeof out - 1, q);
	out[n] = 0;
	r = pclose(q);
	VF_CHECK(r == 0, "%s (%s, status %d)", out, c.c_str(), r);
	unlink((p + ".c").c_str());
	unlink((p + ".exe").c_str());
	unlink((p + ".err").c_str());
}
