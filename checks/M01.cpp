// M01: the diagram tool. Programs generated from every small flowgraph go through the real extraction, validation, rendering and
// command line; a small parser of declarations and calls stands in for tree-sitter. Diagrams are read back and compared.
#include "mc.hpp"
#include "cpp_parser.h"
#include "mermaid_renderer.h"
#include <algorithm>
#include <array>
#include <cctype>
#include <cstring>
#include <sstream>
#include <fstream>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <stdexcept>
#include <string>
#include <vector>
#include <fcntl.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
#include <dirent.h>
#define main tool_main
#include "main.cpp"
#undef main
using namespace mc;
// ---------------------------------------------------------------- a parser of declarations and calls
struct Nd { const char* type; uint32_t a, b; bool named = true; const char* field = nullptr; Nd* up = nullptr; std::vector<Nd*> k; };
struct TSTree { std::string src; std::vector<std::unique_ptr<Nd>> all; Nd* root; }; struct TSParser { int x; };
static long live_trees, live_parsers;
struct Mini {
    TSTree& t; uint32_t p = 0; const std::string& s; Nd* extra_to = nullptr; explicit Mini(TSTree& t) : t(t), s(t.src) {}
    Nd* mk(const char* ty, uint32_t a, uint32_t b = 0) { t.all.emplace_back(new Nd{ty, a, b}); return t.all.back().get(); }
    Nd* add(Nd* n, Nd* c, const char* f = nullptr) { c->up = n; c->field = f; n->k.push_back(c); n->b = c->b; return c; }
    void ws(Nd* into) { for (;;) { while (p < s.size() && isspace((unsigned char)s[p])) ++p; uint32_t q = p; if (s.compare(p, 2, "//") == 0) { while (p < s.size() && s[p] != '\n') ++p; } else if (s.compare(p, 2, "/*") == 0) { p = (uint32_t)std::min(s.find("*/", p) + 2, s.size()); } else return; add(into, mk("comment", q, p)); } }
    bool is(char c) { return p < s.size() && s[p] == c; }
    void tok(Nd* n, const char* x) { size_t L = strlen(x); if (s.compare(p, L, x)) fail("harness", "parser: expected %s at %u of %s", x, p, s.c_str()); Nd* c = mk(x, p, p + (uint32_t)L); c->named = false; p += (uint32_t)L; add(n, c); }
    static bool idc(char c) { return isalnum((unsigned char)c) || c == '_' || (c & 0x80); }
    Nd* ident(const char* ty) { uint32_t q = p; while (p < s.size() && idc(s[p])) ++p; if (p == q) fail("harness", "parser: identifier at %u of %s", p, s.c_str()); return mk(ty, q, p); }
    Nd* name(const char* ty) { Nd* n = ident(ty); while (s.compare(p, 2, "::") == 0) { Nd* o = mk("qualified_identifier", n->a, 0); n->type = "namespace_identifier"; add(o, n, "scope"); tok(o, "::"); add(o, ident(ty), "name"); n = o; } return n; }
    Nd* targs() { Nd* n = mk("template_argument_list", p); tok(n, "<"); uint32_t q = p; int d = 0; for (; p < s.size(); ++p) { char c = s[p]; if (c == '<' || c == '(') ++d; else if (c == '>' && !d) break; else if (c == '>' || c == ')') --d; else if (c == ',' && !d) { add(n, mk("type_descriptor", q, p)); tok(n, ","); q = p--; } } add(n, mk("type_descriptor", q, p)); tok(n, ">"); return n; }
    Nd* args() { Nd* n = mk("argument_list", p); tok(n, "("); ws(n); while (!is(')')) { add(n, expr()); ws(n); if (is(',')) { tok(n, ","); ws(n); } } tok(n, ")"); return n; }
    Nd* prim() {
        if (is('"')) { uint32_t q = p++; while (!is('"')) p += s[p] == '\\' ? 2 : 1; ++p; return mk("string_literal", q, p); }
        if (isdigit((unsigned char)s[p]) || is('-')) { uint32_t q = p++; while (p < s.size() && (idc(s[p]) || s[p] == '.')) ++p; return mk("number_literal", q, p); }
        if (is('&')) { Nd* n = mk("pointer_expression", p); tok(n, "&"); add(n, post(prim()), "argument"); return n; }
        if (is('{')) { Nd* n = mk("initializer_list", p); tok(n, "{"); ws(n); while (!is('}')) { add(n, expr()); ws(n); if (is(',')) { tok(n, ","); ws(n); } } tok(n, "}"); return n; }
        Nd* n = name("identifier"); if (is('<')) { Nd* o = mk("template_function", n->a); add(o, n, "name"); add(o, targs(), "arguments"); n = o; } return n;
    }
    Nd* post(Nd* n) { for (;;) {
        if (is('.')) { Nd* o = mk("field_expression", n->a); add(o, n, "argument"); tok(o, "."); add(o, ident("field_identifier"), "field"); n = o; }
        else if (is('(')) { Nd* o = mk("call_expression", n->a); add(o, n, "function"); add(o, args(), "arguments"); n = o; }
        else if (is('[')) { Nd* o = mk("subscript_expression", n->a); add(o, n, "argument"); Nd* l = mk("subscript_argument_list", p); tok(l, "["); add(l, expr()); tok(l, "]"); add(o, l, "indices"); n = o; }
        else return n; } }
    Nd* expr() { Nd* n = post(prim()); while (p + 2 < s.size() && s[p] == ' ' && strchr("+-*", s[p + 1]) && s[p + 2] == ' ') { Nd* o = mk("binary_expression", n->a); add(o, n, "left"); ++p; Nd* op = mk("+", p, p + 1); op->named = false; ++p; add(o, op); ++p; add(o, post(prim()), "right"); n = o; } return n; }
    Nd* stmt() {
        uint32_t q = p; Nd probe{"", 0, 0};
        if (s.compare(p, 7, "return ") == 0) { Nd* n = mk("return_statement", p); tok(n, "return"); ws(n); add(n, expr()); tok(n, ";"); return n; }
        // a declaration has two names in a row
        uint32_t e = p; int d = 0; while (e < s.size() && (idc(s[e]) || s[e] == ':' || s[e] == '<' || d)) { if (s[e] == '<') ++d; if (s[e] == '>') --d; ++e; } bool decl = s[e] == ' ' && idc(s[e + 1]);
        if (decl) {
            Nd* n = mk("declaration", q); Nd* ty;
            if (s.compare(p, 5, "const") == 0) { add(n, mk("type_qualifier", p, p + 5)); p += 5; ws(n); }
            if (s.compare(p, 5, "auto ") == 0) { ty = mk("placeholder_type_specifier", p, p + 4); p += 4; } else if (s.compare(p, 4, "int ") == 0) { ty = mk("primitive_type", p, p + 3); p += 3; }
            else { ty = name("type_identifier"); if (is('<')) { Nd* o = mk("template_type", ty->a); add(o, ty, "name"); add(o, targs(), "arguments"); ty = o; } }
            add(n, ty, "type"); ws(n); Nd* id = ident("identifier");
            if (is(';')) { add(n, id, "declarator"); tok(n, ";"); return n; }
            Nd* i = mk("init_declarator", id->a); add(i, id, "declarator"); ws(i);
            if (is('(')) add(i, args(), "value"); else if (is('{')) add(i, prim(), "value"); else { tok(i, "="); ws(i); add(i, expr(), "value"); }
            add(n, i, "declarator"); tok(n, ";"); return n;
        }
        Nd* n = mk("expression_statement", q); add(n, expr()); tok(n, ";"); return n;
    }
    Nd* unit() {
        Nd* r = mk("translation_unit", 0); ws(r);
        while (p < s.size()) {
            if (is('#')) { uint32_t q = p; while (p < s.size() && s[p] != '\n') ++p; add(r, mk("preproc_include", q, p)); }
            else if (s.compare(p, 4, "int ") == 0 && s.find('(', p) < s.find(';', p)) { Nd* f = mk("function_definition", p); add(f, mk("primitive_type", p, p + 3), "type"); p += 4; Nd* d = mk("function_declarator", p); add(d, ident("identifier"), "declarator"); Nd* l = mk("parameter_list", p); tok(l, "("); tok(l, ")"); add(d, l, "parameters"); add(f, d, "declarator"); ws(f); Nd* c = mk("compound_statement", p); tok(c, "{"); ws(c); while (!is('}')) { add(c, stmt()); ws(c); } tok(c, "}"); add(f, c, "body"); add(r, f); }
            else add(r, stmt());
            ws(r);
        }
        r->b = (uint32_t)s.size(); return r;
    }
};
static TSNode wrap(const Nd* n) { TSNode r; memset(&r, 0, sizeof r); r.id = n; return r; }
static const Nd* un(TSNode n) { return (const Nd*)n.id; }
static const TSTree* cur_tree;
static TSPoint point(uint32_t at) { TSPoint q{0, 0}; for (uint32_t i = 0; i < at && cur_tree; ++i) { if (cur_tree->src[i] == '\n') { ++q.row; q.column = 0; } else ++q.column; } return q; }
extern "C" {
const TSLanguage* tree_sitter_cpp() { static int l; return (const TSLanguage*)&l; }
TSParser* ts_parser_new(void) { ++live_parsers; return new TSParser(); } void ts_parser_delete(TSParser* p) { if (p) { --live_parsers; delete p; } } bool ts_parser_set_language(TSParser*, const TSLanguage*) { return true; }
TSTree* ts_parser_parse_string(TSParser*, const TSTree*, const char* s, uint32_t n) { auto* t = new TSTree(); ++live_trees; t->src.assign(s, n); cur_tree = t; t->root = Mini(*t).unit(); return t; }
void ts_tree_delete(TSTree* t) { --live_trees; delete t; cur_tree = nullptr; } TSNode ts_tree_root_node(const TSTree* t) { return wrap(t->root); }
uint32_t ts_node_child_count(TSNode n) { return (uint32_t)un(n)->k.size(); } TSNode ts_node_child(TSNode n, uint32_t i) { return wrap(i < un(n)->k.size() ? un(n)->k[i] : nullptr); }
uint32_t ts_node_named_child_count(TSNode n) { uint32_t c = 0; for (auto* x : un(n)->k) c += x->named; return c; } TSNode ts_node_named_child(TSNode n, uint32_t i) { for (auto* x : un(n)->k) if (x->named && i-- == 0) return wrap(x); return wrap(nullptr); }
TSNode ts_node_child_by_field_name(TSNode n, const char* f, uint32_t l) { std::string w(f, l); for (auto* x : un(n)->k) if (x->field && w == x->field) return wrap(x); return wrap(nullptr); }
TSNode ts_node_parent(TSNode n) { return wrap(un(n)->up); } TSNode ts_node_next_sibling(TSNode n) { auto* u = un(n)->up; if (!u) return wrap(nullptr); auto it = std::find(u->k.begin(), u->k.end(), un(n)); return wrap(++it == u->k.end() ? nullptr : *it); }
uint32_t ts_node_start_byte(TSNode n) { return un(n)->a; } uint32_t ts_node_end_byte(TSNode n) { return un(n)->b; } TSPoint ts_node_start_point(TSNode n) { return point(un(n)->a); } TSPoint ts_node_end_point(TSNode n) { return point(un(n)->b); }
const char* ts_node_type(TSNode n) { return un(n)->type; } bool ts_node_is_null(TSNode n) { return !n.id; } bool ts_node_is_named(TSNode n) { return un(n)->named; } bool ts_node_is_extra(TSNode n) { return !strcmp(un(n)->type, "comment"); } bool ts_node_has_error(TSNode) { return false; } bool ts_node_eq(TSNode a, TSNode b) { return a.id == b.id; }
static TSNode beside(TSNode n, int d, bool named) { auto* u = un(n)->up; if (!u) return wrap(nullptr); long i = std::find(u->k.begin(), u->k.end(), un(n)) - u->k.begin(); do i += d; while (i >= 0 && i < (long)u->k.size() && named && !u->k[i]->named); return wrap(i >= 0 && i < (long)u->k.size() ? u->k[i] : nullptr); }
TSNode ts_node_prev_sibling(TSNode n) { return beside(n, -1, false); } TSNode ts_node_next_named_sibling(TSNode n) { return beside(n, 1, true); } TSNode ts_node_prev_named_sibling(TSNode n) { return beside(n, -1, true); } bool ts_node_is_missing(TSNode) { return false; } bool ts_node_is_error(TSNode) { return false; } const char* ts_node_field_name_for_child(TSNode n, uint32_t i) { return i < un(n)->k.size() ? un(n)->k[i]->field : nullptr; }
TSTreeCursor ts_tree_cursor_new(TSNode n) { TSTreeCursor c; memset(&c, 0, sizeof c); c.tree = c.id = n.id; return c; } void ts_tree_cursor_delete(TSTreeCursor*) {} TSNode ts_tree_cursor_current_node(const TSTreeCursor* c) { return wrap((const Nd*)c->id); }
static bool go(TSTreeCursor* c, TSNode n) { if (!n.id) return false; c->id = n.id; return true; } bool ts_tree_cursor_goto_parent(TSTreeCursor* c) { return c->id != c->tree && go(c, ts_node_parent(wrap((const Nd*)c->id))); } bool ts_tree_cursor_goto_next_sibling(TSTreeCursor* c) { return c->id != c->tree && go(c, ts_node_next_sibling(wrap((const Nd*)c->id))); } bool ts_tree_cursor_goto_first_child(TSTreeCursor* c) { return go(c, ts_node_child(wrap((const Nd*)c->id), 0)); }
}
// ---------------------------------------------------------------- flowgraphs, programs and diagrams
struct Blk { std::string name, type, targs; bool used = true; };
struct Con { int from, to; std::string ch; };
struct G { std::vector<Blk> b; std::vector<Con> c; };
struct Style { int layout = 0; bool comments = false, spaced = false; };
static std::string program(const G& g, const Style& st) {
    std::string s = "#include \"cler.hpp\"\n// a flowgraph of (some) blocks, x.in\nint main() {\n    int n = 3;\n    const auto k = compute(n, \"a.b\");\n";
    for (auto& b : g.b) s += "    " + b.type + (b.targs.empty() ? "" : "<" + b.targs + ">") + " " + b.name + (st.layout & 1 ? "{\"" : "(\"") + b.name + "\", 2.5, n" + (st.layout & 1 ? "};" : ");") + (st.comments ? " // declares " + b.name + ".in\n" : "\n");
    std::vector<std::string> runs;
    for (int i = 0; i < (int)g.b.size(); ++i) {
        if (!g.b[i].used) continue; std::string r = std::string(st.layout & 2 ? "BlockRunner(" : "cler::BlockRunner("); if (st.comments) r += "/* block */ "; r += "&" + g.b[i].name;
        for (auto& c : g.c) if (c.from == i) { r += st.spaced ? ",\n            " : ", "; if (st.comments) r += "/* e.g. to x.in */ "; r += "&" + g.b[c.to].name + "." + c.ch; if (st.comments) r += "   // main path, a.b\n"; }
        runs.push_back(r + ")");
    }
    if (st.layout & 4) { for (size_t i = 0; i < runs.size(); ++i) s += "    auto r" + std::to_string(i) + " = " + runs[i] + ";\n"; s += "    auto fg = cler::make_desktop_flowgraph("; for (size_t i = 0; i < runs.size(); ++i) s += std::string(i ? ", " : "") + "r" + std::to_string(i); s += ");\n"; }
    else { s += "    auto fg = cler::make_desktop_flowgraph(\n        "; for (size_t i = 0; i < runs.size(); ++i) s += (i ? ",\n        " : "") + runs[i] + (st.comments ? " /* runner */" : ""); s += "\n    );\n"; }
    return s + "    fg.run();\n    fg.stop();\n    return 0;\n}\n";
}
struct Node { std::string open, close, label, fill; int decl = 0; };
struct Diagram { std::string head; std::map<std::string, Node> n; std::vector<std::pair<std::string, std::string>> e; std::string bad; };
static std::string trim(std::string s) { while (!s.empty() && isspace((unsigned char)s.back())) s.pop_back(); size_t i = 0; while (i < s.size() && isspace((unsigned char)s[i])) ++i; return s.substr(i); }
static Diagram read_diagram(const std::string& text, const std::string& fence) {
    Diagram d; std::vector<std::string> L; size_t i = 0; while (i < text.size()) { size_t j = text.find('\n', i); if (j == std::string::npos) { d.bad = "the last line is cut"; return d; } L.push_back(trim(text.substr(i, j - i))); i = j + 1; }
    if (fence == "backticks" || fence == "colons") { const char* o = fence == "colons" ? "::: mermaid" : "```mermaid"; const char* c = fence == "colons" ? ":::" : "```"; if (L.size() < 2 || L.front() != o || L.back() != c) { d.bad = "fences"; return d; } L.erase(L.begin()); L.pop_back(); }
    if (L.empty()) { d.bad = "empty"; return d; } d.head = L[0]; auto idlen = [](const std::string& l) { size_t k = 0; while (k < l.size() && (isalnum((unsigned char)l[k]) || l[k] == '_')) ++k; return k; };
    for (size_t k = 1; k < L.size(); ++k) {
        auto& l = L[k]; if (l.empty()) continue; if (l.compare(0, 6, "style ") == 0) { size_t q = l.find(' ', 6); if (q == std::string::npos || d.n[l.substr(6, q - 6)].fill.size()) { d.bad = "style line " + l; return d; } d.n[l.substr(6, q - 6)].fill = l.substr(q + 1); continue; }
        size_t q = idlen(l); std::string id = l.substr(0, q); if (!q) { d.bad = "line " + l; return d; } std::string r = trim(l.substr(q));
        if (r.compare(0, 3, "-->") == 0) { std::string to = trim(r.substr(3)); if (to.empty() || idlen(to) != to.size()) { d.bad = "edge " + l; return d; } d.e.push_back({id, to}); continue; }
        size_t a = r.find('"'), z = r.rfind('"'); if (a == std::string::npos || a == z || r.substr(a + 1, z - a - 1).find('"') != std::string::npos) { d.bad = "node " + l; return d; } Node& n = d.n[id]; n.open = r.substr(0, a); n.close = r.substr(z + 1); n.label = r.substr(a + 1, z - a - 1); ++n.decl;
    }
    return d;
}
static std::string unescape(std::string s) { static const std::pair<const char*, const char*> E[] = {{"&lt;", "<"}, {"&gt;", ">"}, {"&quot;", "\""}, {"&apos;", "'"}, {"&#39;", "'"}, {"&amp;", "&"}}; std::string r; for (size_t i = 0; i < s.size();) { bool hit = false; for (auto& e : E) if (s.compare(i, strlen(e.first), e.first) == 0) { r += e.second; i += strlen(e.first); hit = true; break; } if (!hit) r += s[i++]; } return r; }
// the rows of a label: name, (type), <template arguments>
static std::vector<std::string> rows(const std::string& l) { std::vector<std::string> v; size_t i = 0; for (;;) { size_t j = l.find("<br/>", i); v.push_back(l.substr(i, j == std::string::npos ? j : j - i)); if (j == std::string::npos) return v; i = j + 5; } }
static std::map<int, std::array<std::string, 3>> look;   // role -> shape and colour
static void check(const G& g, const std::string& text, const std::string& fence, const std::string& dir, const std::string& what) {
    Diagram d = read_diagram(text, fence); MC_CHECK(d.bad.empty(), "syntax", "%s: %s in\n%s", what.c_str(), d.bad.c_str(), text.c_str()); MC_CHECK(d.head == "flowchart " + dir, "syntax", "%s: starts with %s", what.c_str(), d.head.c_str());
    std::map<std::string, std::string> by; for (auto& x : d.n) { MC_CHECK(x.second.decl == 1, "node", "%s: %s is declared %d times", what.c_str(), x.first.c_str(), x.second.decl); std::string nm = rows(x.second.label)[0]; MC_CHECK(!by.count(nm), "node", "%s: two nodes for %s", what.c_str(), nm.c_str()); by[nm] = x.first; }
    size_t used = 0; for (size_t i = 0; i < g.b.size(); ++i) {
        auto& b = g.b[i]; bool in = false, out = false; for (auto& c : g.c) { out |= c.from == (int)i; in |= c.to == (int)i; } bool want = b.used || in; used += want; MC_CHECK(by.count(b.name) == (size_t)want, "node", "%s: %s is %s", what.c_str(), b.name.c_str(), want ? "not drawn" : "drawn though not used"); if (!want) continue;
        Node& n = d.n[by[b.name]]; auto r = rows(n.label); MC_CHECK(r.size() == (b.targs.empty() ? 2u : 3u), "label", "%s: label of %s is %s", what.c_str(), b.name.c_str(), n.label.c_str());
        std::string t = b.type; size_t p = t.find("Block"); if (p != std::string::npos) t.erase(p, 5); MC_CHECK(unescape(r[1]) == "(" + t + ")" || unescape(r[1]) == "(" + b.type + ")", "label", "%s: label of %s shows the type as %s", what.c_str(), b.name.c_str(), r[1].c_str());
        if (!b.targs.empty()) MC_CHECK(unescape(r[2]) == "<" + b.targs + ">", "label", "%s: label of %s shows the template arguments %s as %s", what.c_str(), b.name.c_str(), b.targs.c_str(), r[2].c_str());
        for (auto& x : r) MC_CHECK(x.find_first_of("<>\"") == std::string::npos, "label", "%s: label of %s has unescaped text: %s", what.c_str(), b.name.c_str(), n.label.c_str());
        int role = out && !in ? 0 : in && !out ? 1 : 2; std::array<std::string, 3> lk{n.open, n.close, n.fill}; MC_CHECK(!n.fill.empty(), "look", "%s: %s has no colour", what.c_str(), b.name.c_str());
        if (!look.count(role)) look[role] = lk; MC_CHECK(look[role] == lk, "look", "%s: %s is drawn as %s%s %s, others of its role as %s%s %s", what.c_str(), b.name.c_str(), lk[0].c_str(), lk[1].c_str(), lk[2].c_str(), look[role][0].c_str(), look[role][1].c_str(), look[role][2].c_str());
        for (auto& o : look) MC_CHECK(o.first == role || (o.second[2] != lk[2] && (o.second[0] != lk[0] || o.second[1] != lk[1])), "look", "%s: roles %d and %d look alike", what.c_str(), o.first, role);
    }
    for (auto& x : d.n) for (auto* k : {"end", "style", "class", "click", "graph", "subgraph", "flowchart", "default"}) MC_CHECK(x.first != k, "syntax", "%s: %s is a key word of the diagram language", what.c_str(), k);
    MC_CHECK(d.n.size() == used, "node", "%s: %zu nodes instead of %zu", what.c_str(), d.n.size(), used);
    std::multiset<std::pair<std::string, std::string>> e, w; for (auto& x : d.e) e.insert(x); for (auto& c : g.c) w.insert({by[g.b[c.from].name], by[g.b[c.to].name]});
    MC_CHECK(e == w, "edge", "%s: %zu edges drawn, %zu connections, or between other blocks", what.c_str(), e.size(), w.size()); uint64_t h = used; for (auto& x : e) h = hmix(h, std::hash<std::string>()(x.first + ">" + x.second)); for (auto& b : g.b) h = hmix(h, std::hash<std::string>()(b.name + b.type + b.targs)); count_eval(1); count_trans(); state(h); outcome(std::hash<std::string>()(text));
}
static std::string desc(const G& g) { std::string s; for (auto& b : g.b) s += b.type + "<" + b.targs + "> " + b.name + (b.used ? "; " : " (unused); "); for (auto& c : g.c) s += g.b[c.from].name + "->" + g.b[c.to].name + "." + c.ch + " "; return s; }
static void through(const G& g, const Style& st, const std::string& nm, cler::CppParser& ps, cler::MermaidRenderer& rd, const std::string& pre = "") {
    std::string prog = pre + program(g, st), what = nm + ": " + desc(g) + "layout " + std::to_string(st.layout) + (st.comments ? " with comments" : ""); note("%s", what.c_str()); sample("%s", what.c_str());
    MC_CHECK(cler::CppParser::is_flowgraph_file(prog), "refused", "%s: not recognised", what.c_str()); cler::FlowGraph fg = ps.parse_file(prog, "x.cpp"); MC_CHECK(live_trees == 0, "leak", "%s: %ld trees stay", what.c_str(), live_trees);
    MC_CHECK(fg.is_valid, "refused", "%s: %s", what.c_str(), fg.error_message.c_str()); check(g, rd.render(fg), "backticks", "LR", what);
    std::multiset<std::string> w, have(fg.warnings.begin(), fg.warnings.end()); for (size_t i = 0; i < g.b.size(); ++i) { bool con = false; for (auto& c : g.c) con |= c.from == (int)i || c.to == (int)i; size_t hits = 0; for (auto& m : have) { size_t p = m.find(": "); hits += p != std::string::npos && m.substr(p + 2) == g.b[i].name; } bool want = !con; MC_CHECK(hits == (size_t)want, "warning", "%s: %zu warnings for %s", what.c_str(), hits, g.b[i].name.c_str()); }
}
static const char* NM[] = {"a", "ab", "a_b", "b1"}; static const char* TY[] = {"SourceCWBlock", "MyBlockOfGain", "block_x", "GainBlock"}; static const char* TA[] = {"float", "", "std::complex<float>, 2", "Foo<Bar<int>>"};
static void graphs(int n, int pairs, bool all) {
    scenario("every graph of " + std::to_string(n) + " blocks, " + std::to_string(pairs) + " channel sets", [=] {
        cler::CppParser ps; cler::MermaidRenderer rd; int P = n * (n - 1); uint64_t tot = 1; for (int i = 0; i < P; ++i) tot *= pairs; static const std::vector<std::vector<const char*>> CH = {{}, {"in"}, {"in[0]", "in[1]"}, {"in_b", "in", "in[n]", "in[n + 1]"}, {"in[10]", "in[1 + 1]", "in[1]"}};
        for (uint64_t code = 0; code < tot; ++code) for (int unused = 0; unused < (1 << n); ++unused) {
            G g; for (int i = 0; i < n; ++i) g.b.push_back({NM[i], TY[(i + code) % 4], TA[(i + code / 3) % 4], !(unused >> i & 1)}); uint64_t c = code; bool ok = true; for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) if (i != j) { auto& ch = CH[c % pairs]; c /= pairs; for (auto* x : ch) g.c.push_back({i, j, x}); if (!ch.empty() && !g.b[i].used) ok = false; }
            if (!ok) continue; bool any = false; for (auto& b : g.b) any |= b.used; if (!any) continue;
            int v = (int)(hmix(code, unused) % 32); Style st; st.layout = v & 7; st.comments = v & 8; st.spaced = v & 16; if (all) for (v = 0; v < 32; ++v) { st.layout = v & 7; st.comments = v & 8; st.spaced = v & 16; through(g, st, "program", ps, rd); } else through(g, st, "program", ps, rd);
        }
    });
}
static void labels() {
    scenario("names, types and template arguments", [] {
        cler::CppParser ps; cler::MermaidRenderer rd; std::vector<std::string> names{"x", "X", "xBlock", "x__y", "x_y", "_x", "node_x", "end", "a1", "a_1", "graph2"}, types{"Block", "GainBlock", "BlockBlock", "blockchain", "AddBlockV2"}, ta{"", "float", "std::complex<float>", "A<B<C<int>>>, 3", "'c'", "std::array<std::pair<int, int>, 2>"};
        for (auto& a : names) for (auto& b : names) if (a != b) for (auto& t : types) for (auto& x : ta) { G g; g.b = {{a, t, x}, {b, "SinkNullBlock", "float"}}; g.c = {{0, 1, "in"}}; Style st; st.layout = (int)(hmix(a.size() * 7 + b.size(), x.size()) & 7); through(g, st, "labels", ps, rd); }
    });
    scenario("long programs", [] {
        cler::CppParser ps; cler::MermaidRenderer rd;
        for (int n = 1; n <= (thorough() ? 120 : 40); ++n) for (size_t pre : {0, 1000, 5000, 70000, 300000}) for (int v = 0; v < (pre > 6000 ? 1 : 3); ++v) {
            G g; for (int i = 0; i < n; ++i) g.b.push_back({"b" + std::to_string(i), TY[i % 4], TA[i % 4]}); for (int i = 0; i + 1 < n; ++i) g.c.push_back({i, v == 1 ? n - 1 : i + 1, v == 1 ? "in[" + std::to_string(i) + "]" : "in"}); if (v == 2) { for (auto& c : g.c) c.from = 0; }
            if (pre > 6000 && n > 12) continue; Style st; st.layout = n & 7; st.comments = n & 8; through(g, st, "long program", ps, rd, std::string(pre ? "/* " + std::string(pre, pre & 1 ? '*' : 'x') + " */\n" : ""));
        }
    });
    scenario("rendering and validation of given graphs", [] {
        for (auto* fence : {"backticks", "colons", "none"}) for (auto* dir : {"LR", "TB", "RL"}) for (int code = 0; code < 729; ++code) {
            cler::MermaidRenderer rd(dir, fence); G g; for (int i = 0; i < 3; ++i) g.b.push_back({NM[i], TY[i], i == 2 ? "A<'\"'> & b" : TA[i]}); int c = code; cler::FlowGraph f; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) if (i != j) { for (int k = 0; k < c % 3; ++k) g.c.push_back({i, j, "in[" + std::to_string(k) + "]"}); c /= 3; }
            for (auto& b : g.b) { cler::Block x; x.name = b.name; x.type = b.type; x.template_params = b.targs; x.in_flowgraph = true; f.blocks[b.name] = x; }
            for (auto& k : g.c) { cler::Connection x; x.source_block = g.b[k.from].name; x.source_channel = "out"; x.target_block = g.b[k.to].name; x.target_channel = k.ch; f.connections.push_back(x); f.blocks[x.source_block].outputs.push_back("out"); f.blocks[x.target_block].inputs.push_back(k.ch); }
            MC_CHECK(f.validate() && f.is_valid, "refused", "a graph of known blocks is refused: %s", f.error_message.c_str()); for (int rep = 0; rep < 2; ++rep) check(g, rd.render(f), fence, dir, std::string("given graph, ") + fence + " " + dir + ": " + desc(g));
            // a connection from or to a block that is not there
            for (int side = 0; side < 2; ++side) for (size_t at = 0; at <= f.connections.size() && at < 3; ++at) { cler::FlowGraph h = f; cler::Connection x; x.source_block = side ? "a" : "ghost"; x.target_block = side ? "ghost" : "a"; h.connections.insert(h.connections.begin() + at, x); MC_CHECK(!h.validate() && !h.is_valid && h.error_message.find("ghost") != std::string::npos, "dangling", "a connection %s an unknown block is accepted", side ? "to" : "from"); cler::Block gb; gb.name = "ghost"; gb.in_flowgraph = true; h.blocks["ghost"] = gb; MC_CHECK(h.validate() && h.is_valid && h.error_message.empty(), "dangling", "the graph stays refused after the block was added"); count_eval(2); }
        }
    });
}
// ---------------------------------------------------------------- the command
static std::string DIR_;
static void put(const std::string& p, const std::string& c) { std::ofstream(DIR_ + "/" + p) << c; }
static std::map<std::string, std::string> files(const std::string& sub = "") { std::map<std::string, std::string> r; if (DIR* d = opendir((DIR_ + "/" + sub).c_str())) { while (dirent* e = readdir(d)) { std::string n = e->d_name; if (n.size() > 3 && n.substr(n.size() - 3) == ".md") { struct stat st; std::string f = DIR_ + "/" + sub + n; if (lstat(f.c_str(), &st) == 0 && S_ISREG(st.st_mode)) { std::ifstream in(f); std::stringstream s; s << in.rdbuf(); r[sub + n] = s.str(); } } } closedir(d); } return r; }
static int command(std::vector<std::string> a) {
    fflush(nullptr); pid_t p = fork();
    if (p == 0) { if (chdir(DIR_.c_str())) _exit(99); int n = open("/dev/null", O_WRONLY); dup2(n, 1); dup2(n, 2); std::vector<char*> v; a.insert(a.begin(), "cler-mermaid"); for (auto& x : a) v.push_back((char*)x.c_str()); v.push_back(nullptr); int r = tool_main((int)a.size(), v.data()); std::cout.flush(); _exit(r); }
    int st = 0; waitpid(p, &st, 0); MC_CHECK(WIFEXITED(st) && WEXITSTATUS(st) < 90, "crash", "the command ended with status %x", st); return WEXITSTATUS(st);
}
static void wipe() { for (auto* s : {"", "d.ir/", "sub/"}) if (DIR* d = opendir((DIR_ + "/" + s).c_str())) { while (dirent* e = readdir(d)) if (e->d_name[0] != '.') { std::string f = DIR_ + "/" + s + e->d_name; struct stat st; if (lstat(f.c_str(), &st) == 0 && !S_ISDIR(st.st_mode)) unlink(f.c_str()); } closedir(d); } }
static void cli() {
    scenario("the command", [] {
        const char* sc = getenv("MC_SCRATCH"); DIR_ = std::string(sc ? sc : "/tmp") + "/M01-" + std::to_string(getpid()); mkdir(DIR_.c_str(), 0700); mkdir((DIR_ + "/d.ir").c_str(), 0700); mkdir((DIR_ + "/sub").c_str(), 0700);
        G g1, g2; g1.b = {{"src", "SourceCWBlock", "float"}, {"sink", "SinkNullBlock", "float"}}; g1.c = {{0, 1, "in"}}; g2 = g1; g2.b.push_back({"mid", "GainBlock", "std::complex<float>"}); g2.c = {{0, 2, "in"}, {2, 1, "in[0]"}};
        std::string dangling = program(g1, {}); dangling.replace(dangling.find("&sink.in"), 8, "&lost.in");
        struct In { const char* path; int kind; const G* g; const char* out; } I[] = {{"one.cpp", 0, &g1, "one_flowgraph.md"}, {"d.ir/two", 0, &g2, "two_flowgraph.md"}, {"sub/th.ree.cpp", 0, &g2, "th.ree_flowgraph.md"}, {"plain.cpp", 1, nullptr, nullptr}, {"gone.cpp", 2, nullptr, nullptr}, {"dang.cpp", 2, nullptr, nullptr}, {"none.cpp", 2, nullptr, nullptr}};
        const int K = 7; auto lay = [&] { wipe(); for (auto& x : I) if (x.kind == 0) put(x.path, program(*x.g, {})); put("plain.cpp", "int main() {\n    return 0;\n}\n"); put("dang.cpp", dangling); put("none.cpp", "int main() {\n    auto fg = cler::make_desktop_flowgraph(r);\n    return 0;\n}\n"); };
        int D = thorough() ? 4 : 3; for (int d = 1; d <= D; ++d) { int tot = 1; for (int i = 0; i < d; ++i) tot *= K; for (int code = 0; code < tot; ++code) for (int verb = 0; verb < 2; ++verb) {
            std::vector<std::string> a; int c = code; std::map<std::string, const G*> want; bool bad = false; std::string what = "command"; if (verb) a.push_back(code & 1 ? "-v" : "--verbose"); for (int i = 0; i < d; ++i) { auto& x = I[c % K]; c /= K; a.push_back(x.path); what += std::string(" ") + x.path; if (x.kind == 0) want[x.out] = x.g; bad |= x.kind == 2; } note("%s", what.c_str());
            if (d == 3 && verb && !thorough()) continue; lay(); int r = command(a); MC_CHECK((r != 0) == bad, "status", "%s: exit status %d", what.c_str(), r); auto have = files(); MC_CHECK(have.size() == want.size(), "files", "%s: %zu files instead of %zu", what.c_str(), have.size(), want.size()); for (auto& w : want) { MC_CHECK(have.count(w.first), "files", "%s: %s is missing", what.c_str(), w.first.c_str()); check(*w.second, have[w.first], "backticks", "LR", what); }
        } }
        // where the diagram goes, and when it cannot be written there
        for (auto& x : I) if (x.kind == 0) for (int pos = 0; pos < 2; ++pos) for (auto* o : {"out", "sub/out", "d.ir/o.u.t", "nodir/out", "full", "one.cpp"}) {
            lay(); if (symlink("/dev/full", (DIR_ + "/full.md").c_str())) fail("harness", "symlink"); std::vector<std::string> a{x.path}; a.insert(a.begin() + (pos ? 0 : 1), {"-o", o}); std::string what = std::string("command ") + x.path + " -o " + o; note("%s", what.c_str()); int r = command(a); bool bad = !strcmp(o, "nodir/out") || !strcmp(o, "full");
            MC_CHECK((r != 0) == bad, "status", "%s: exit status %d", what.c_str(), r); std::map<std::string, std::string> have; for (auto* s : {"", "sub/", "d.ir/"}) for (auto& f : files(s)) have.insert(f); MC_CHECK(have.size() == (bad ? 0u : 1u), "files", "%s: %zu files", what.c_str(), have.size()); if (!bad) { MC_CHECK(have.count(std::string(o) + ".md"), "files", "%s: other file %s", what.c_str(), have.begin()->first.c_str()); check(*x.g, have.begin()->second, "backticks", "LR", what); }
        }
        // one file that cannot be written does not keep the others from being written
        for (int at = 0; at < 3; ++at) { lay(); if (symlink("/dev/full", (DIR_ + "/one_flowgraph.md").c_str())) fail("harness", "symlink"); std::vector<std::string> a{"d.ir/two", "sub/th.ree.cpp"}; a.insert(a.begin() + at, "one.cpp"); int r = command(a); MC_CHECK(r != 0, "status", "a diagram that could not be written is reported as generated"); MC_CHECK(files().size() == 2, "files", "%zu files instead of 2", files().size()); count_eval(1); }
        struct Bad { std::vector<std::string> a; int r; } B[] = {{{}, 1}, {{"-h"}, 0}, {{"--help"}, 0}, {{"-x", "one.cpp"}, 1}, {{"one.cpp", "-o"}, 1}, {{"one.cpp", "d.ir/two", "-o", "out"}, 1}, {{"-o", "out"}, 1}, {{"-v"}, 1}, {{""}, 1}, {{"--output", "one.cpp"}, 1}, {{"one.cpp", "-x"}, 1}};
        for (auto& b : B) { lay(); std::string what = "command"; for (auto& x : b.a) what += " '" + x + "'"; note("%s", what.c_str()); int r = command(b.a); MC_CHECK((r != 0) == (b.r != 0), "status", "%s: exit status %d", what.c_str(), r); MC_CHECK(files().empty(), "files", "%s writes a diagram", what.c_str()); count_eval(1); }
        wipe(); rmdir((DIR_ + "/d.ir").c_str()); rmdir((DIR_ + "/sub").c_str()); rmdir(DIR_.c_str());
    });
}
static void setup() { graphs(1, 1, true); graphs(2, 5, true); graphs(3, 3, thorough()); if (thorough()) graphs(3, 4, false); labels(); cli(); }
MC_MAIN(setup)
