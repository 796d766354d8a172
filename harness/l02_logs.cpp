// Log files and console messages.
#include <vector>
#include "text.h"
#include <map>
#include <GTMesh/Debug/Debug.h>
typedef std::string Str;
static int U() { return (int)sx_i64("v", 0, 100000); }
static char C() { char c = (char)sx_u8("c"); ASSUME(c >= 32 && c <= 126); return c; }
#ifndef STEPS
#define STEPS 3
#endif
struct Ob { int a; Str s; }; MAKE_ATTRIBUTE_TRAIT(Ob, a, s);
struct Row { int g, line; bool full; Str file, name; int kind; int v; Str s; }; // kind of the value: number, text, list, object
static void value(Rd& r, const Row& x) { if (x.kind == 0) { if (r.num<int>() != x.v) r.fail(); } else if (x.kind == 1) { if (r.text() != x.s) r.fail(); } else if (x.kind == 2) { r.want('['); for (int i = 0; i < 2; i++) { if (i) r.want(','); if (r.num<int>() != x.v) r.fail(); } r.want(']'); } else { r.want('{'); if (r.text() != "a") r.fail(); r.want(':'); if (r.num<int>() != x.v) r.fail(); r.want(','); if (r.text() != "s") r.fail(); r.want(':'); if (r.text() != x.s) r.fail(); r.want('}'); } }
static void checkGroups(const std::vector<Row>& e, const std::vector<int>& g, const char* w) { std::vector<std::pair<int, int>> k; for (size_t i = 0; i < e.size(); i++) if (e[i].full) k.emplace_back(e[i].g, g[i]); bool ok = true; for (size_t i = 0; i < k.size(); i++) for (size_t j = 0; j < i; j++) ok = ok & ((k[i].first == k[j].first) == (k[i].second == k[j].second)); ASSERT(ok, w); }
static void jkey(Rd& r, const char* n, bool first) { if (!first) r.want(','); if (r.ok && r.text() != n) r.fail(); r.want(':'); }
static void checkJson(const Str& t, const std::vector<Row>& e) {
    Rd r(t); r.want('{'); jkey(r, "logs", true); r.want('['); std::vector<int> g;
    for (size_t i = 0; i < e.size(); i++) { if (i) r.want(','); r.want('{'); g.push_back(-1); if (e[i].full) { jkey(r, "gInd", true); g.back() = r.num<int>(); jkey(r, "file", false); if (r.text() != e[i].file) r.fail(); jkey(r, "line", false); if (r.num<int>() != e[i].line) r.fail(); } jkey(r, "expr", !e[i].full); if (r.text() != e[i].name) r.fail(); jkey(r, "data", false); value(r, e[i]); r.want('}'); ASSERT(r.ok, "a record of a JSON log"); if (!r.ok) return; }
    r.want(']'); r.want('}'); r.end(); ASSERT(r.ok, "complete JSON log"); checkGroups(e, g, "groups of a JSON log");
}
static void checkHtml(const Str& t, const std::vector<Row>& e) {
    size_t b = t.find("\ndata = ["); ASSERT(t.find("<html>") != Str::npos && b != Str::npos, "beginning of an HTML log"); if (b == Str::npos) return; Rd r(t.substr(b)); r.want("data = ["); std::vector<int> g;
    for (size_t i = 0; i < e.size(); i++) { r.want('['); g.push_back(r.num<int>()); r.want(','); if (r.num<int>() != e[i].line) r.fail(); r.want(','); if (r.text('\'') != e[i].file) r.fail(); r.want(','); if (r.text('\'') != e[i].name) r.fail(); r.want(','); value(r, e[i]); r.want(']'); if (i + 1 < e.size() || r.is(',')) r.want(','); ASSERT(r.ok, "a record of an HTML log"); if (!r.ok) return; }
    r.want(']'); r.want(';'); ASSERT(r.ok, "end of the data of an HTML log"); Str rest = r.t.substr(r.p); size_t s = rest.find("</script>"), y = rest.find("</body>"), h = rest.find("</html>"); ASSERT(s != Str::npos && y != Str::npos && h != Str::npos && s < y && y < h && rest.find("data = [") == Str::npos, "complete HTML log"); checkGroups(e, g, "groups of an HTML log");
}
// console text without colours
static Str plain(const Str& t, int& colors) { Str r, last; colors = 0; for (size_t i = 0; i < t.size(); i++) { if (t[i] == 27) { colors++; last.clear(); while (i < t.size() && t[i] != 'm') last += t[i++]; continue; } r += t[i]; if (t[i] == '\n') ASSERT(last.empty() || last == "\033[0" || last == "\033[", "colours end with the line"); } return r; }
static void header(Rd& r, const char* prefix, const Str& file, int line, const char* func) { r.want(prefix); r.want(file.c_str()); r.want(':'); if (r.num<int>() != line) r.fail(); if (func) { r.want('<'); r.want(func); r.want('>'); } else if (r.is('<')) r.fail(); }
static void var(Rd& r, const char* n, const Row& x) { r.want("[["); r.want(n); r.want("]]"); r.want("==>"); value(r, x); if (r.p >= r.t.size() || r.t[r.p] != '\n') r.fail(); }
void sx_main() {
#if CASE == 0 || CASE == 1
    std::vector<Row> cur[2]; int at = 0, g = 0; int line = U(); Str file = "f", name = "n"; 
#ifdef MANY
    int sc = choose(2) ? 0 : 3;
#else
    int sc = choose(5);
#endif
    if (sc == 0) file = Str(1, C()) + "x"; else if (sc == 1) file = Str("C:\\") + C() + "\\y.cpp"; else if (sc == 2) file = Str("\\\\") + C(); else if (sc == 3) name = Str(1, C()) + "[" + C() + "]"; else name = "m[\"k\\\"]['q']";
#if CASE == 1
    for (char c : file) ASSUME(c != '\'');
#else
    for (char c : file) ASSUME(c != '"');
#endif
    {
#if CASE == 0
        JSONLogger log("sx_log0.txt");
#else
        HtmlLogger log("sx_log0.txt");
#endif
        bool over = false;
#ifdef MANY
        // long names and hundreds of records before the rest
        if (choose(2)) { file = Str(300, 'f') + file; name = Str(260, 'n') + name; }
        for (int i = 0; i < MANY; i++) { if (i % 5 == 2) { Row x{g, i, true, file, "x", 0, i, ""}, y{g, i, true, file, name, 1, 0, "t"}; g++; log.writeVar(i, file.c_str(), "x", x.v, name.c_str(), y.s); cur[0].push_back(x); cur[0].push_back(y); } else { Row x{g++, i * 300, true, i % 2 ? file : Str("other.h"), "v", i % 7 ? 0 : 2, i == 259 ? U() : i * 77, ""}; if (i % 7) log.writeVar(x.line, x.file.c_str(), "v", x.v); else log.writeVar(x.line, x.file.c_str(), "v", std::vector<int>(2, x.v)); cur[0].push_back(x); } }
        sx_reach("hundreds");
#endif
        for (int s = 0; s < STEPS && !over; s++) switch (
#ifdef MANY
            choose(2) ? 6 : 0
#else
            choose(s == 0 ? 7 : 6)
#endif
            ) {
            case 0: { Row x{g++, line, true, file, name, 0, U(), ""}; log.writeVar(line, file.c_str(), name.c_str(), x.v); cur[at].push_back(x); break; }
            case 1: { Row x{g, line, true, file, name, 0, U(), ""}, y{g, line, true, file, "y", 1, 0, Str(1, C())}, z{g, line, true, file, "z", 3, U(), "q"}; g++; log.writeVar(line, file.c_str(), name.c_str(), x.v, "y", y.s, "z", Ob{z.v, z.s}); cur[at].push_back(x); cur[at].push_back(y); cur[at].push_back(z); sx_reach("several"); break; }
            case 2: { Row x{g, line, true, file, "x", 2, U(), ""}, y{g, line, true, file, name, 1, 0, "c\"d\\"}; g++; log.writeVar(line, file.c_str(), "x", std::vector<int>(2, x.v), name.c_str(), "c\"d\\"); cur[at].push_back(x); cur[at].push_back(y); break; }
#if CASE == 0
            case 3: { Row x{0, 0, false, "", name, 0, U(), ""}, y{0, 0, false, "", "y", 1, 0, "t"}; if (choose(2)) { log.writeVar(name.c_str(), x.v); cur[at].push_back(x); } else { log.writeVar(name.c_str(), x.v, "y", y.s); cur[at].push_back(x); cur[at].push_back(y); } break; }
#else
            case 3: break;
#endif
            case 6: { std::vector<Row> x; int n = 4 + choose(2); for (int i = 0; i < n; i++) x.push_back(Row{g, line, true, file, Str(1, (char)('a' + i)), 0, i == 3 ? U() : i, ""}); g++; if (n == 4) log.writeVar(line, file.c_str(), "a", x[0].v, "b", x[1].v, "c", x[2].v, "d", x[3].v); else log.writeVar(line, file.c_str(), "a", x[0].v, "b", x[1].v, "c", x[2].v, "d", x[3].v, "e", x[4].v); for (auto& r : x) cur[at].push_back(r); sx_reach("many"); break; }
            case 4: log.create("sx_log1.txt"); at = 1; cur[1].clear(); sx_reach("created"); break;
            case 5: if (s) { log.destroy(); over = true; sx_reach("destroyed"); } break;
        }
    }
    for (int i = 0; i < 2; i++) { Str t = fileText(i ? "sx_log1.txt" : "sx_log0.txt"); if (i && !at) continue; if (!i && cur[0].empty()) continue;
#if CASE == 0
        checkJson(t, cur[i]);
#else
        checkHtml(t, cur[i]);
#endif
    }
#else
    // console
    int line = U(); ConsoleLogger c; bool col = true, only = false, fun = true, agg = true; Str ident = c.getIdentation(); int how = choose(17);
    if (how < 16) { col = how & 1; only = how & 2; fun = how & 4; agg = how & 8; c.setColoredOutput(col); c.setOnlyFliename(only); c.setPrintFunction(fun); c.setPrintAggregated(agg); c.setIdentation("#->"); ident = "#->"; ASSERT(c.getColoredOutput() == col && c.getOnlyFilename() == only && c.getPrintFunction() == fun && c.getPrintAggregated() == agg && c.getIdentation() == ident, "settings of the console"); }
    else { c.setColoredOutput(false); c.setOnlyFliename(true); c.setPrintFunction(false); c.setPrintAggregated(false); c.setIdentation("z"); c.reset(); ASSERT(c.getColoredOutput() && !c.getOnlyFilename() && c.getPrintFunction() && c.getPrintAggregated() && c.getIdentation() == ident, "reset restores all settings"); }
    static const char* files[] = {"main.cpp", "/a/b c/main.cpp", "dir/x.h", "/r.cpp"}; static const char* bases[] = {"main.cpp", "main.cpp", "x.h", "r.cpp"}; int fi = choose(4); Str f = only ? bases[fi] : files[fi];
    Row x{0, 0, true, "", "", 0, U(), ""}, y{0, 0, true, "", "", 1, 0, Str(1, C())}, z{0, 0, true, "", "", 3, U(), "q"}; int n = 1 + choose(3); int k = 0;
    { Str t = plain(captureStderr([&] { if (n == 1) c.writeVariable(line, "func", files[fi], "x + 1", x.v); else if (n == 2) c.writeVariable(line, "func", files[fi], "x + 1", x.v, "y", y.s); else c.writeVariable(line, "func", files[fi], "x + 1", x.v, "y", y.s, "z", Ob{z.v, z.s}); }), k);
      Rd r(t); const Row* rows[] = {&x, &y, &z}; const char* names[] = {"x + 1", "y", "z"}; if (agg) header(r, "==", f, line, fun ? "func" : nullptr); for (int i = 0; i < n; i++) { if (agg) r.want(ident.c_str()); else header(r, "==", f, line, fun ? "func" : nullptr); var(r, names[i], *rows[i]); } r.end(); ASSERT(r.ok, "variables on the console"); ASSERT((k > 0) == col, "colours of the console"); }
    { Str t = plain(captureStderr([&] { if (n == 1) c.writeMessage("++", line, "func", files[fi], y.s); else c.writeMessage("++", line, "func", files[fi], y.s, x.v, "lit"); }), k); Rd r(t); const Row* rows[] = {&y, &x}; for (int i = 0; i < (n == 1 ? 1 : 3); i++) { header(r, "++", f, line, fun ? "func" : nullptr); r.want("==>"); if (i == 2) r.want("\"lit\""); else value(r, *rows[i]); r.want("<=="); if (r.p >= r.t.size() || r.t[r.p] != '\n') r.fail(); } r.end(); ASSERT(r.ok, "messages on the console"); ASSERT((k > 0) == col, "colours of messages"); }
    if (how == 16) {
        Str t = captureStdout([&] { if (n == 1) ConsoleLogger::writeVarC(line, "func", files[fi], "x + 1", x.v); else ConsoleLogger::writeVarC(line, "func", files[fi], "x + 1", x.v, "y", y.s, "z", Ob{z.v, z.s}); }); Rd r(t); const Row* rows[] = {&x, &y, &z}; const char* names[] = {"x + 1", "y", "z"}; for (int i = 0; i < (n == 1 ? 1 : 3); i++) { header(r, "==", files[fi], line, "func"); var(r, names[i], *rows[i]); } r.end(); ASSERT(r.ok, "variables on the standard output");
        t = captureStdout([&] { if (n == 1) ConsoleLogger::writeMessageC("--", line, "func", files[fi], y.s); else ConsoleLogger::writeMessageC("--", line, "func", files[fi], y.s, x.v, "lit"); }); Rd q(t); for (int i = 0; i < (n == 1 ? 1 : 3); i++) { header(q, "--", files[fi], line, "func"); q.want("==>"); if (i == 2) q.want("\"lit\""); else if (i) value(q, x); else value(q, y); q.want("<=="); } q.end(); ASSERT(q.ok, "messages on the standard output");
        // macros
        int a = x.v; Str b = y.s; std::map<char, int> m{{'a', 5}}; auto& d = dbg::getDebugConsoleLogger(); d.setColoredOutput(false); int calls = 0; auto once = [&] { calls++; return a; }; Row o{0, 0, true, "", "", 0, 5, ""};
        Str e = captureStderr([&] { DBGVAR(a, m['a'], b, once()); }); { Rd r(e); header(r, "==", __FILE__, __LINE__, "operator()"); r.want(d.getIdentation().c_str()); var(r, "a", x); r.want(d.getIdentation().c_str()); var(r, "m['a']", o); r.want(d.getIdentation().c_str()); var(r, "b", y); r.want(d.getIdentation().c_str()); var(r, "once()", x); r.end(); ASSERT(r.ok && calls == 1, "macro of variables"); }
        e = captureStderr([&] { DBGVARCOND(a > 7, a); }); ASSERT(e.empty() == !(a > 7), "macro with a condition");
        e = captureStderr([&] { DBGMSG(b); }); { Rd r(e); header(r, "++", __FILE__, __LINE__, "operator()"); r.want("==>"); value(r, y); r.want("<=="); r.end(); ASSERT(r.ok, "macro of messages"); }
        e = captureStderr([&] { DBGCHECK; }); { Rd r(e); header(r, "--", __FILE__, __LINE__, "operator()"); ASSERT(r.ok, "macro of places"); }
        e = captureStderr([&] { DBGTRY(a++) }); ASSERT(e.empty() && a == x.v + 1, "guarded code runs once"); a--;
        e = captureStdout([&] { DBGVAR_STDIO(a, b); }); { Rd r(e); header(r, "==", __FILE__, __LINE__, "operator()"); var(r, "a", x); header(r, "==", __FILE__, __LINE__, "operator()"); var(r, "b", y); r.end(); ASSERT(r.ok, "macro of variables on the standard output"); }
        e = captureStdout([&] { DBGCHECK_STDIO; }); { Rd r(e); header(r, "--", __FILE__, __LINE__, "operator()"); ASSERT(r.ok, "macro of places on the standard output"); }
        int l1 = __LINE__; DBGVAR_JSON(a, m['a']); DBGVAR_JSON(b); Singleton<dbg::DBGStatics>::getInstance().JSONDBGLog.destroy(); { Row r1 = x, r2 = o, r3 = y; r1.g = r2.g = 0; r3.g = 1; r1.line = r2.line = r3.line = l1; r1.file = r2.file = r3.file = __FILE__; r1.name = "a"; r2.name = "m['a']"; r3.name = "b"; checkJson(fileText("DBG.json"), {r1, r2, r3}); }
        int l2 = __LINE__; DBGVAR_HTML(a, m['a']); DBGVAR_HTML(b); Str lost = captureStderr([&] { Singleton<dbg::DBGStatics>::getInstance().HDBGLog.destroy(); }); { Row r1 = x, r2 = o, r3 = y; r1.g = r2.g = 0; r3.g = 1; r1.line = r2.line = r3.line = l2; r1.file = r2.file = r3.file = __FILE__; r1.name = "a"; r2.name = "m['a']"; r3.name = "b"; checkHtml(fileText("DBG.html"), {r1, r2, r3}); }
        sx_reach("macros");
    }
#endif
    sx_reach("end");
}
