// reading of DOT dumps; the includer defines AR
// a diagram read from text: named nodes with levels and branches ("" rejects, "T" accepts)
struct Read {
    std::map<std::string, int> level; std::map<std::string, std::vector<std::string> > br; std::map<std::string, std::string> label; std::set<std::string> one, invis; std::string root; std::string why;
    Assign<AR> const* a; Rule r; std::map<std::string, u64> memo;
    void bad(const char* s) { if (why.empty()) why = s; }
    u64 at(std::string const& f, int from) {
        if (f.empty()) return 0;
        if (one.count(f)) return a->skip(from, 0, r);
        if (invis.count(f)) return 0; // an accepting state that was cut off
        if (!level.count(f) || level[f] >= from) { bad("a branch leads to an unknown or a higher node"); return 0; }
        int l = level[f]; u64 s = a->skip(from, l, r);
        if (!memo.count(f)) { u64 v = 0; std::vector<std::string> c = br[f]; c.resize(AR); for (int b = 0; b < AR; ++b) v |= (u64)(a->d[l] == (u64)b) & at(c[b], l); memo[f] = v; }
        return s & memo[f];
    }
    u64 fun(Assign<AR> const& x, Rule rr) { a = &x; r = rr; memo.clear(); return at(root, x.n + 1); }
};
static std::string unquote(std::string const& s, size_t& p) { while (p < s.size() && s[p] != '"') ++p; std::string r; ++p; while (p < s.size() && s[p] != '"') r += s[p++]; ++p; return r; }
static bool has(std::string const& s, const char* t) { return s.find(t) != std::string::npos; }
static int num(std::string const& s) { int v = 0; for (size_t i = 0; i < s.size(); ++i) { if (s[i] < '0' || s[i] > '9') return -1; v = v * 10 + (s[i] - '0'); } return s.empty() ? -1 : v; }
static std::vector<std::string> split(std::string const& s, char c) { std::vector<std::string> r; std::string w; for (size_t i = 0; i <= s.size(); ++i) if (i == s.size() || s[i] == c) { r.push_back(w); w.clear(); } else w += s[i]; return r; }
static Read readDot(std::string const& text) {
    Read g; std::vector<std::string> l = split(text, '\n'); std::set<std::string> ranked;
    if (l.size() < 3 || l[0].substr(0, 7) != "digraph" || l[l.size() - 2] != "}") g.bad("the dump is not a digraph");
    for (size_t i = 1; i + 2 < l.size(); ++i) {
        std::string s = l[i]; size_t p = 0;
        if (has(s, "rank=same")) { size_t q = s.find("same;") + 5; std::string d; while (q < s.size() && s[q] != ';' && s[q] != '}') { if (s[q] != ' ') d += s[q]; ++q; } int lv = num(d); if (lv < 1) g.bad("a rank has no level"); while (s.find('"', q) != std::string::npos) { std::string f = unquote(s, q); if (!ranked.insert(f).second) g.bad("a node is in two ranks"); g.level[f] = lv; } continue; }
        size_t k = s.find_first_not_of(" "); if (k == std::string::npos || s[k] != '"') continue; // level labels and their invisible chain
        std::string f = unquote(s, p);
        if (s.find("->", p) != std::string::npos && s.find("->", p) < p + 3) {
            std::string t = unquote(s, p), at = s.substr(p);
            if (f == "^") { if (!g.root.empty()) g.bad("two roots"); g.root = t; if (!has(at, "dashed")) g.bad("root arrow style"); continue; }
            int b = has(at, "style=dashed") ? 0 : !has(at, "style=solid") ? -1 : AR == 2 ? 1 : has(at, "color=blue") ? 1 : has(at, "color=red") ? 2 : has(at, "color=green") ? 3 : -1;
            if (b < 0 || b >= AR) { g.bad("a branch has no style"); continue; }
            std::vector<std::string>& c = g.br[f]; c.resize(AR); if (!c[b].empty()) g.bad("a branch is drawn twice"); c[b] = t;
        } else if (f == "^") continue;
        else if (has(s, "shape=square")) { g.one.insert(f); }
        else if (has(s, "style=invis")) { g.invis.insert(f); continue; }
        else { size_t q = s.find("label=", p); if (q == std::string::npos) { g.bad("a node has no label"); continue; } q += 6; if (g.label.count(f)) g.bad("a node is listed twice"); g.label[f] = unquote(s, q); }
    }
    for (std::map<std::string, std::string>::iterator it = g.label.begin(); it != g.label.end(); ++it) if (!ranked.count(it->first)) g.bad("a node is in no rank");
    for (std::set<std::string>::iterator it = ranked.begin(); it != ranked.end(); ++it) if (!g.label.count(*it)) g.bad("a ranked node is not listed");
    for (std::map<std::string, std::vector<std::string> >::iterator it = g.br.begin(); it != g.br.end(); ++it) { if (!g.label.count(it->first)) g.bad("a branch leaves an unknown node"); for (int b = 0; b < AR; ++b) if (!it->second[b].empty() && !g.label.count(it->second[b]) && !g.one.count(it->second[b]) && !g.invis.count(it->second[b])) g.bad("a branch leads to an unknown node"); }
    if (g.one.size() > 1) g.bad("two accepting terminals");
    return g;
}
