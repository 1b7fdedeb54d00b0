// Properties of the files the program writes and reads (C18, C19, C20) and of its settings (C21), decided by
// exhaustive enumeration of small particle sets, file variants, cuts and settings on the real classes, with
// independent parsers.  Every call that may end the program runs in a forked child.
#include "common.hpp"

#include "loader.hpp"
#include "particles_exporter.hpp"
#include "particles_loader/csv.hpp"
#include "particles_loader/prof.hpp"
#include "particles_loader/vtu.hpp"

using std::string;
using std::vector;
namespace {
bool T() { return mc::opt.thorough(); }

// ---------------------------------------------------------------- scratch files and child processes
const string& dir() {
    static string d;
    static pid_t owner = 0;
    if (owner != getpid()) {
        owner = getpid();
        d = (mc::opt.scratch.empty() ? string("/tmp") : mc::opt.scratch) + "/w" + std::to_string(owner);
        mkdir(d.c_str(), 0755);
    }
    return d;
}
void put(const string& path, const string& text) {
    int fd = open(path.c_str(), O_CREAT | O_WRONLY | O_TRUNC, 0644);
    size_t o = 0;
    while (o < text.size()) { ssize_t w = write(fd, text.data() + o, text.size() - o); if (w <= 0) throw std::logic_error("cannot write scratch file"); o += w; }
    close(fd);
}
string get(const string& path) {
    std::ifstream f(path, std::ios::binary);
    std::stringstream s;
    s << f.rdbuf();
    return s.str();
}
struct Child {
    bool accepted = false; // the call returned
    string end;            // how it ended otherwise
    string err;            // standard error
    string data;           // what the callback returned
    bool crash = false, hang = false;
};
// f runs in a child with file descriptors 1, 2 redirected; its return value comes back.
Child child(const std::function<string()>& f) {
    Child c;
    static thread_local int seq = 0;
    string err = dir() + "/err", res = dir() + "/res";
    (void) seq;
    unlink(res.c_str());
    fflush(nullptr);
    pid_t pid = fork();
    if (pid == 0) {
        int e = open(err.c_str(), O_CREAT | O_WRONLY | O_TRUNC, 0644);
        dup2(e, 2);
        int n = open("/dev/null", O_WRONLY);
        dup2(n, 1);
        alarm(20);
        string r;
        auto o = mc::guarded([&] { r = f(); });
        std::cerr.flush();
        if (o.ok()) { put(res, "OK" + r); _exit(0); }
        put(res, "END" + o.str());
        _exit(o.end == mc::End::Exit && o.code == 0 ? 8 : 7);
    }
    int st = 0;
    waitpid(pid, &st, 0);
    c.err = get(err);
    string r = get(res);
    if (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM) { c.hang = true; c.end = "no answer within 20 s"; return c; }
    if (r.compare(0, 2, "OK") == 0 && WIFEXITED(st) && WEXITSTATUS(st) == 0) { c.accepted = true; c.data = r.substr(2); c.end = "accepted"; return c; }
    if (r.compare(0, 3, "END") == 0) { c.end = r.substr(3); if (WEXITSTATUS(st) == 8) c.end = "exit(0)"; return c; }
    c.crash = true;
    c.end = WIFSIGNALED(st) ? string("signal ") + std::to_string(WTERMSIG(st)) : "abnormal exit " + std::to_string(WEXITSTATUS(st)) + " " + c.err.substr(0, 600);
    return c;
}
bool refused(const Child& c) { return !c.accepted && !c.crash && !c.hang && c.end != "exit(0)"; }

// ---------------------------------------------------------------- particle sets
struct PI { int type, fluid; V3 x, v; double rho, p, n; int bc; };
Particles real(const vector<PI>& s) {
    Particles r;
    for (auto& q : s) {
        Particle a(r.size(), static_cast<ParticleType>(q.type), E3(q.x), E3(q.v), q.rho, q.fluid);
        a.pressure = q.p; a.numberDensity = q.n; a.boundaryCondition = static_cast<FluidState>(q.bc);
        r.add(a);
    }
    return r;
}
string ser(const std::pair<double, Particles>& l) {
    std::ostringstream o;
    o << std::setprecision(17) << l.first << " " << l.second.size() << "\n";
    for (auto& p : l.second)
        o << p.id << " " << (int) p.type << " " << p.fluidType << " " << p.position.x() << " " << p.position.y() << " " << p.position.z() << " " << p.velocity.x() << " " << p.velocity.y() << " "
          << p.velocity.z() << " " << p.density << "\n";
    return o.str();
}
double rd(const string& s) { char* e; double d = strtod(s.c_str(), &e); if (*e || s.empty()) return NAN; return d; }
vector<string> split(const string& s, const string& seps) {
    vector<string> r;
    string cur;
    for (char c : s) { if (seps.find(c) != string::npos) { if (!cur.empty()) r.push_back(cur); cur.clear(); } else cur += c; }
    if (!cur.empty()) r.push_back(cur);
    return r;
}
vector<string> linesOf(const string& s) {
    vector<string> r;
    std::istringstream i(s);
    string l;
    while (std::getline(i, l)) r.push_back(l);
    return r;
}
// equality of a value and its decimal text with six significant digits (more digits are fine)
bool six(double v, const string& text) {
    if (std::isnan(v)) return text.find("nan") != string::npos;
    double t = strtod(text.c_str(), nullptr);
    if (std::isinf(v)) return t == v;
    return std::fabs(t - v) <= 5.001e-6 * std::fabs(v);
}
const vector<double>& reals() {
    static const vector<double> r = {0, 1.0 / 3, -2.5, 1234567.89, -1e-12, 1e300, 0.1, 999999.5, 123456, -0.000012345678, 5e-324, 1e5};
    return r;
}
vector<PI> someSet(Ctx& x, int n, int salt) {
    vector<PI> s;
    for (int i = 0; i < n; i++) {
        auto R = [&](int k) { return reals()[(i * 7 + k * 5 + salt * 3) % reals().size()]; };
        s.push_back({(i + salt) % 4, (i * 3 + salt) % 5 - 1, {R(0), R(1), R(2)}, {R(3), R(4), R(5)}, 500.0 + i, R(6), std::fabs(R(7)), (i * 2 + salt) % 5});
    }
    return s;
}

// ---------------------------------------------------------------- XML, only what VTK files need
struct Tag { string name; std::map<string, string> at; string text; vector<Tag> kids; };
// returns "" or an error; raw appended data is taken verbatim
struct Xml {
    const string& s;
    size_t i = 0;
    string err;
    explicit Xml(const string& t) : s(t) {}
    void ws() { while (i < s.size() && isspace((unsigned char) s[i])) i++; }
    bool fail(const string& m) { if (err.empty()) err = m + " at byte " + std::to_string(i); return false; }
    bool attrs(Tag& t) {
        while (true) {
            ws();
            if (i >= s.size()) return fail("end of file in a tag");
            if (s[i] == '>' || s[i] == '/' || s[i] == '?') return true;
            size_t b = i;
            while (i < s.size() && (isalnum((unsigned char) s[i]) || s[i] == '_')) i++;
            string k = s.substr(b, i - b);
            if (k.empty() || i >= s.size() || s[i] != '=') return fail("malformed attribute");
            i++;
            char q = i < s.size() ? s[i] : 0;
            if (q != '"' && q != '\'') return fail("attribute without quotes");
            size_t e = s.find(q, i + 1);
            if (e == string::npos) return fail("unterminated attribute");
            if (t.at.count(k)) return fail("duplicate attribute " + k);
            t.at[k] = s.substr(i + 1, e - i - 1);
            i = e + 1;
        }
    }
    bool element(Tag& t) {
        if (i >= s.size() || s[i] != '<') return fail("element expected");
        i++;
        size_t b = i;
        while (i < s.size() && isalnum((unsigned char) s[i])) i++;
        t.name = s.substr(b, i - b);
        if (t.name.empty()) return fail("element name expected");
        if (!attrs(t)) return false;
        if (s[i] == '/') { if (i + 1 >= s.size() || s[i + 1] != '>') return fail("malformed empty element"); i += 2; return true; }
        i++;
        if (t.name == "AppendedData") {
            size_t e = s.rfind("</AppendedData>");
            if (e == string::npos || e < i) return fail("unterminated AppendedData");
            t.text = s.substr(i, e - i);
            i = e + 15;
            return true;
        }
        while (true) {
            size_t n = s.find('<', i);
            if (n == string::npos) return fail("element " + t.name + " is not closed");
            t.text += s.substr(i, n - i);
            i = n;
            if (s.compare(i, 2, "</") == 0) {
                size_t e = s.find('>', i);
                if (e == string::npos) return fail("unterminated end tag");
                string nm = split(s.substr(i + 2, e - i - 2), " \n\t\r").empty() ? "" : split(s.substr(i + 2, e - i - 2), " \n\t\r")[0];
                if (nm != t.name) return fail("element " + t.name + " is closed by " + nm);
                i = e + 1;
                return true;
            }
            Tag k;
            if (!element(k)) return false;
            t.kids.push_back(k);
        }
    }
    bool document(Tag& root) {
        ws();
        if (s.compare(i, 5, "<?xml") == 0) { size_t e = s.find("?>", i); if (e == string::npos) return fail("unterminated declaration"); i = e + 2; }
        ws();
        if (!element(root)) return false;
        ws();
        if (i != s.size()) return fail("text after the document");
        return true;
    }
};
const Tag* kid(const Tag& t, const string& n) { const Tag* r = nullptr; for (auto& k : t.kids) if (k.name == n) { if (r) return nullptr; r = &k; } return r; }
size_t sizeOfType(const string& t) {
    static const std::map<string, size_t> m = {{"Int8", 1}, {"UInt8", 1}, {"Int16", 2}, {"UInt16", 2}, {"Int32", 4}, {"UInt32", 4}, {"Float32", 4}, {"Int64", 8}, {"UInt64", 8}, {"Float64", 8}};
    auto i = m.find(t);
    return i == m.end() ? 0 : i->second;
}
bool isFloat(const string& t) { return t == "Float32" || t == "Float64"; }
struct Array { string type, name; int comps; bool binary; vector<string> text; vector<double> val; };

// Decodes one DataArray into values; any inconsistency is a violation.
Array decode(Ctx& x, const Tag& t, const string& appended, const string& header, bool little, size_t tuples, const string& file, vector<std::pair<size_t, size_t>>& blocks) {
    Array a;
    auto at = [&](const string& k) { auto i = t.at.find(k); return i == t.at.end() ? string() : i->second; };
    a.type = at("type"); a.name = at("Name");
    a.comps = at("NumberOfComponents").empty() ? 1 : atoi(at("NumberOfComponents").c_str());
    string nt = at("NumberOfTuples");
    if (!nt.empty()) tuples = strtoul(nt.c_str(), nullptr, 10);
    size_t w = sizeOfType(a.type);
    if (!w) x.fail(file + ": array " + a.name + " has the unknown type '" + a.type + "'");
    size_t want = tuples * a.comps;
    if (at("format") == "ascii") {
        a.binary = false;
        a.text = split(t.text, " \n\t\r");
        if (a.text.size() != want) x.fail(file + ": array " + a.name + " has " + std::to_string(a.text.size()) + " values, expected " + std::to_string(want));
        for (auto& s : a.text) {
            double d = strtod(s.c_str(), nullptr);
            if (!isFloat(a.type) && (d != std::floor(d) || s.find_first_not_of("-+0123456789") != string::npos)) x.fail(file + ": array " + a.name + " of type " + a.type + " has the value " + s);
            if (a.type[0] == 'U' && d < 0) x.fail(file + ": unsigned array " + a.name + " has the value " + s);
            a.val.push_back(d);
        }
    } else if (at("format") == "appended") {
        a.binary = true;
        string off = at("offset");
        if (off.empty()) x.fail(file + ": array " + a.name + " has no offset");
        size_t hs = header == "UInt64" ? 8 : 4;
        size_t o = strtoul(off.c_str(), nullptr, 10);
        if (o + hs > appended.size()) x.fail(file + ": array " + a.name + " has its offset beyond the appended data");
        uint64_t n = 0;
        std::memcpy(&n, appended.data() + o, hs);
        if (n != want * w) x.fail(file + ": block of array " + a.name + " has length " + std::to_string(n) + ", expected " + std::to_string(want * w));
        if (o + hs + n > appended.size()) x.fail(file + ": block of array " + a.name + " runs beyond the appended data");
        blocks.push_back({o, o + hs + n});
        const char* q = appended.data() + o + hs;
        for (size_t k = 0; k < want; k++, q += w) {
            double d = 0;
            if (a.type == "Float64") std::memcpy(&d, q, 8);
            else if (a.type == "Float32") { float f; std::memcpy(&f, q, 4); d = f; }
            else if (a.type[0] == 'U') { uint64_t u = 0; std::memcpy(&u, q, w); d = (double) u; }
            else { int64_t u = 0; std::memcpy(&u, q, w); if (w < 8) { int sh = 64 - 8 * (int) w; u = (int64_t) ((uint64_t) u << sh) >> sh; } d = (double) u; }
            a.val.push_back(d);
        }
    } else x.fail(file + ": array " + a.name + " has the format '" + at("format") + "'");
    (void) little;
    return a;
}
void checkVtu(Ctx& x, const string& text, bool binary, const vector<PI>& ps, double time, double n0, const string& file) {
    Tag root;
    Xml xml(text);
    if (!xml.document(root)) x.fail(file + " is not well-formed: " + xml.err);
    if (root.name != "VTKFile" || root.at["type"] != "UnstructuredGrid") x.fail(file + ": not a VTKFile of type UnstructuredGrid");
    if (root.at["byte_order"] != "LittleEndian") x.fail(file + ": byte order is '" + root.at["byte_order"] + "' on a little-endian machine");
    string header = root.at["header_type"].empty() ? "UInt32" : root.at["header_type"];
    if (header != "UInt64" && header != "UInt32") x.fail(file + ": header type is '" + header + "'");
    const Tag* grid = kid(root, "UnstructuredGrid");
    const Tag* app = kid(root, "AppendedData");
    if (!grid) x.fail(file + ": no UnstructuredGrid");
    string data;
    if (binary) {
        if (!app) x.fail(file + ": no appended data");
        if (app->at.count("encoding") == 0 || app->at.at("encoding") != "raw") x.fail(file + ": appended data is not raw");
        size_t u = app->text.find('_');
        if (u == string::npos || app->text.find_first_not_of(" \n\t\r") != u) x.fail(file + ": appended data does not begin with an underscore");
        data = app->text.substr(u + 1);
        if (!data.empty() && data.back() == '\n') data.pop_back();
    } else if (app) x.fail(file + ": ASCII file with appended data");
    const Tag* piece = kid(*grid, "Piece");
    if (!piece) x.fail(file + ": no Piece");
    size_t n = ps.size();
    if (strtoul(piece->at.at("NumberOfPoints").c_str(), nullptr, 10) != n) x.fail(file + ": NumberOfPoints is " + piece->at.at("NumberOfPoints") + ", expected " + std::to_string(n));
    if (strtoul(piece->at.at("NumberOfCells").c_str(), nullptr, 10) != n) x.fail(file + ": NumberOfCells is " + piece->at.at("NumberOfCells") + ", expected " + std::to_string(n));
    const Tag *pts = kid(*piece, "Points"), *pd = kid(*piece, "PointData"), *cells = kid(*piece, "Cells"), *fd = kid(*grid, "FieldData");
    if (!pts || !pd || !cells || !fd) x.fail(file + ": Points, PointData, Cells or FieldData is missing or doubled");
    vector<std::pair<size_t, size_t>> blocks;
    auto arrays = [&](const Tag& t, size_t tuples) {
        std::map<string, Array> r;
        for (auto& k : t.kids) {
            if (k.name != "DataArray") x.fail(file + ": unexpected element " + k.name);
            Array a = decode(x, k, data, header, true, tuples, file, blocks);
            if (a.binary != binary) x.fail(file + ": array " + a.name + " is in the wrong format");
            if (r.count(a.name)) x.fail(file + ": array " + a.name + " occurs twice");
            r[a.name] = a;
        }
        return r;
    };
    auto P = arrays(*pts, n), D = arrays(*pd, n), C = arrays(*cells, n), F = arrays(*fd, 1);
    if (P.size() != 1 || P.begin()->second.comps != 3) x.fail(file + ": Points must hold one array of three components");
    auto same = [&](const Array& a, size_t k, double v, const string& who) {
        bool ok = a.binary ? (a.val[k] == v || (std::isnan(v) && std::isnan(a.val[k]))) : isFloat(a.type) ? six(v, a.text[k]) : a.val[k] == v;
        if (!ok) x.fail(file + ": " + who + " is written as " + (a.binary ? mc::num(a.val[k]) : a.text[k]) + ", it is " + mc::num(v));
    };
    auto need = [&](std::map<string, Array>& m, const string& name, int comps, bool flt) -> Array& {
        if (!m.count(name)) x.fail(file + ": array '" + name + "' is missing");
        Array& a = m[name];
        if (a.comps != comps) x.fail(file + ": array '" + name + "' has " + std::to_string(a.comps) + " components");
        if (isFloat(a.type) != flt) x.fail(file + ": array '" + name + "' has type " + a.type);
        if (flt && binary && a.type != "Float64") x.fail(file + ": array '" + name + "' is not exact");
        return a;
    };
    Array& pos = P.begin()->second;
    if (!isFloat(pos.type)) x.fail(file + ": positions have type " + pos.type);
    Array &ty = need(D, "Particle Type", 1, false), &ve = need(D, "Velocity", 3, true), &pr = need(D, "Pressure", 1, true), &nd = need(D, "Number Density", 1, true),
          &nr = need(D, "Number Density Ratio", 1, true), &bc = need(D, "Boundary Condition", 1, false), &ft = need(D, "Fluid Type", 1, false);
    Array &co = need(C, "connectivity", 1, false), &of = need(C, "offsets", 1, false), &ct = need(C, "types", 1, false);
    Array& tm = need(F, "Time", 1, true);
    same(tm, 0, time, "the time");
    for (size_t i = 0; i < n; i++) {
        string who = " of particle " + std::to_string(i);
        for (int a = 0; a < 3; a++) { same(pos, 3 * i + a, ps[i].x[a], "position" + who); same(ve, 3 * i + a, ps[i].v[a], "velocity" + who); }
        same(ty, i, ps[i].type, "type" + who);
        same(pr, i, ps[i].p, "pressure" + who);
        same(nd, i, ps[i].n, "number density" + who);
        same(nr, i, ps[i].n / n0, "number density ratio" + who);
        same(bc, i, ps[i].bc, "boundary condition" + who);
        same(ft, i, ps[i].fluid, "fluid type" + who);
        if (co.val[i] != (double) i) x.fail(file + ": connectivity" + who);
        if (of.val[i] != (double) i + 1) x.fail(file + ": cell offset" + who + " is " + mc::num(of.val[i]));
        if (ct.val[i] != 1) x.fail(file + ": cell type" + who + " is not vertex");
    }
    std::sort(blocks.begin(), blocks.end());
    for (size_t i = 0; i < blocks.size(); i++) {
        size_t want = i ? blocks[i - 1].second : 0;
        if (blocks[i].first != want) x.fail(file + ": appended blocks overlap or leave a gap at byte " + std::to_string(want));
    }
    if (binary && (blocks.empty() || blocks.back().second != data.size())) x.fail(file + ": appended data has " + std::to_string(data.size()) + " bytes, the blocks end at " + std::to_string(blocks.empty() ? 0 : blocks.back().second));
}
void checkProf(Ctx& x, const string& text, const vector<PI>& ps, double time) {
    auto L = linesOf(text);
    if (L.size() != ps.size() + 2) x.fail("profile file has " + std::to_string(L.size()) + " lines for " + std::to_string(ps.size()) + " particles");
    if (!six(time, L[0])) x.fail("profile file states the time " + L[0]);
    if (rd(L[1]) != (double) ps.size()) x.fail("profile file declares " + L[1] + " particles");
    for (size_t i = 0; i < ps.size(); i++) {
        auto f = split(L[i + 2], " ");
        if (f.size() != 7) x.fail("profile line " + std::to_string(i) + " has " + std::to_string(f.size()) + " fields");
        bool ok = rd(f[0]) == ps[i].type;
        for (int a = 0; a < 3; a++) ok = ok && six(ps[i].x[a], f[1 + a]) && six(ps[i].v[a], f[4 + a]);
        if (!ok) x.fail("profile line of particle " + std::to_string(i) + " is '" + L[i + 2] + "', the particle is type " + std::to_string(ps[i].type) + " x=" + str(ps[i].x) + " v=" + str(ps[i].v));
    }
}
void checkCsv(Ctx& x, const string& text, const vector<PI>& ps, double time) {
    auto L = linesOf(text);
    if (L.size() != ps.size() + 3) x.fail("CSV file has " + std::to_string(L.size()) + " lines for " + std::to_string(ps.size()) + " particles");
    if (!six(time, L[0])) x.fail("CSV file states the time " + L[0]);
    if (rd(L[1]) != (double) ps.size()) x.fail("CSV file declares " + L[1] + " particles");
    auto H = split(L[2], ",");
    for (size_t i = 0; i < ps.size(); i++) {
        auto f = split(L[i + 3], ",");
        if (f.size() != H.size()) x.fail("CSV line " + std::to_string(i) + " has " + std::to_string(f.size()) + " fields, the header " + std::to_string(H.size()));
        std::map<string, string> m;
        for (size_t k = 0; k < H.size(); k++) m[H[k]] = f[k];
        bool ok = rd(m["type"]) == ps[i].type && rd(m["fluidType"]) == ps[i].fluid && six(ps[i].x[0], m["x"]) && six(ps[i].x[1], m["y"]) && six(ps[i].x[2], m["z"]) && six(ps[i].v[0], m["vx"]) &&
                  six(ps[i].v[1], m["vy"]) && six(ps[i].v[2], m["vz"]);
        if (!ok) x.fail("CSV line of particle " + std::to_string(i) + " is '" + L[i + 3] + "' under '" + L[2] + "', the particle is type " + std::to_string(ps[i].type) + " fluid " + std::to_string(ps[i].fluid) + " x=" + str(ps[i].x) + " v=" + str(ps[i].v));
    }
}

// ---------------------------------------------------------------- C18
void c18(Ctx& x) {
    int fam = x.choose(4, "family");
    vector<PI> ps, first;
    double time = 0, n0 = 1;
    bool reuse = false, over = false;
    if (fam == 0) { // one or two particles, full alphabet on a field pair
        int f = x.choose(9, "field"); // type fluid x y z.. handled below
        int n = 1 + x.choose(2);
        const auto& R = reals();
        time = R[x.choose(T() ? (int) R.size() : 4)];
        x.shard();
        ps = someSet(x, n, f);
        int who = x.choose(n);
        double v = R[x.choose((int) R.size())];
        if (f < 3) ps[who].x[f] = v;
        else if (f < 6) ps[who].v[f - 3] = v;
        else if (f == 6) ps[who].p = v;
        else if (f == 7) ps[who].n = v;
        else { ps[who].type = x.choose(4); ps[who].fluid = std::vector<int>{0, 1, -1, 7, 2147483647}[x.choose(5)]; ps[who].bc = x.choose(5); }
        n0 = x.flag() ? 6.5397 : 1;
    } else if (fam == 1) { // sizes, exporters used twice, files written over longer ones
        int n = std::vector<int>{0, 1, 2, 3, 5, 17, 300, 1500}[x.choose(T() ? 8 : 7)];
        reuse = x.flag("exporter used before");
        over = x.flag("file existed");
        int salt = x.choose(4);
        x.shard();
        ps = someSet(x, n, salt);
        if (reuse) first = someSet(x, x.flag() ? 40 : 1, salt + 1);
        time = std::vector<double>{0, 0.1, 12345.6}[x.choose(3)];
        n0 = 7.25;
    } else if (fam == 3) { // sizes beyond what eight, sixteen and more bits of a count or an offset can hold
        int n = std::vector<int>{3000, 70000, 200000}[x.choose(T() ? 3 : 2)];
        x.shard();
        ps = someSet(x, n, 1);
        for (int i = 0; i < n; i++) { ps[i].x[0] = i; ps[i].v[1] = -i; }
        time = 1.5;
        n0 = 2;
    } else { // all types, boundary conditions and fluid types of three particles
        x.shard();
        int n = 3;
        ps = someSet(x, n, 2);
        for (auto& q : ps) { q.type = x.choose(4); q.bc = x.choose(T() ? 5 : 3) * (T() ? 1 : 2); q.fluid = x.choose(2); }
        time = 0.25;
        n0 = 3;
    }
    if (x.describing) {
        x.out << ps.size() << " particles, time " << mc::num(time) << ", n0 " << mc::num(n0) << (reuse ? ", exporter used before" : "") << (over ? ", files existed" : "") << "\n";
        for (size_t i = 0; i < ps.size() && i < 3; i++) x.out << "  type " << ps[i].type << " fluid " << ps[i].fluid << " x=" << str(ps[i].x) << " v=" << str(ps[i].v) << " p=" << mc::num(ps[i].p) << " n=" << mc::num(ps[i].n) << " bc " << ps[i].bc << "\n";
    }
    string d = dir();
    vector<string> names = {d + "/o.prof", d + "/o.csv", d + "/a.vtu", d + "/b.vtu"};
    if (over) for (auto& f : names) put(f, string(200000, '#'));
    else for (auto& f : names) unlink(f.c_str());
    ParticlesExporter e;
    auto o = mc::guarded([&] {
        if (reuse) { e.setParticles(real(first)); e.toProf(names[0], 99); e.toCsv(names[1], 99); e.toVtu(names[2], 99, 2, false); e.toVtu(names[3], 99, 2, true); }
        e.setParticles(real(ps));
        e.toProf(names[0], time);
        e.toCsv(names[1], time);
        e.toVtu(names[2], time, n0, false);
        e.toVtu(names[3], time, n0, true);
    });
    x.transition(4);
    if (!o.ok()) x.fail("writing ended the program: " + o.str());
    string p = get(names[0]), c = get(names[1]), a = get(names[2]), b = get(names[3]);
    checkProf(x, p, ps, time);
    checkCsv(x, c, ps, time);
    checkVtu(x, a, false, ps, time, n0, "ASCII VTK file");
    checkVtu(x, b, true, ps, time, n0, "binary VTK file");
    x.state(mc::hashString(b));
    x.outcome(mc::mix(mc::hashString(p), mc::hashString(c)));
    x.nontrivial();
}

// ---------------------------------------------------------------- hand-written files
// ways to write the same number: 1 upper-case exponents, 2 always an exponent, 3 no leading zero, 4 a trailing point, 5 trailing zeros
int spelling = 0;
string g(double v) {
    char b[64];
    snprintf(b, 64, spelling == 1 ? "%.17G" : spelling == 2 ? "%.16e" : "%.17g", v);
    string s = b;
    if (spelling == 1 && s.find('E') == string::npos) { snprintf(b, 64, "%.16E", v); s = b; }
    bool plain = s.find_first_of("eE") == string::npos;
    if (spelling == 3 && plain) { size_t k = s.find("0."); if (k != string::npos && (k == 0 || (k == 1 && s[0] == '-'))) s.erase(k, 1); }
    if (spelling == 4 && plain && s.find('.') == string::npos) s += '.';
    if (spelling == 5 && plain) s += s.find('.') == string::npos ? ".000" : "000";
    return s;
}
vector<PI> loadSet(int n, int salt, bool fluid, bool density) {
    vector<PI> s;
    static const double R[] = {0.5, -0.125, 3, 1e-3, 0, -7.25, 100, 0.1};
    for (int i = 0; i < n; i++) {
        auto r = [&](int k) { return R[(i * 3 + k * 5 + salt) % 8]; };
        static const double D[] = {-1, 0, 850, 0.25, -0.5, 1e-3, 12345.678, 1000, -1e30, 1e6};
        static const int F[] = {0, 2, 1, 3, 130, 70000, 9, -1, 2147483647, -2147483647 - 1, -70000};
        double rho = density ? D[(i * 3 + salt) % 10] : -1;
        s.push_back({(i + salt) % 4, fluid ? F[(i * 2 + salt) % 11] : 0, {r(0), r(1), r(2)}, {r(3), r(4), r(5)}, rho, 0, 0, 0});
    }
    return s;
}
string col(const string& name, const PI& q) {
    if (name == "type") return std::to_string(q.type);
    if (name == "fluidType") return std::to_string(q.fluid);
    if (name == "density") return g(q.rho);
    if (name == "x") return g(q.x[0]);
    if (name == "y") return g(q.x[1]);
    if (name == "z") return g(q.x[2]);
    if (name == "vx") return g(q.v[0]);
    if (name == "vy") return g(q.v[1]);
    return g(q.v[2]);
}
string csvText(const vector<PI>& ps, double time, const vector<string>& cols, size_t declared, const string& nl = "\n", const string& pad = "") {
    string s = g(time) + nl + std::to_string(declared) + nl;
    for (size_t k = 0; k < cols.size(); k++) s += (k ? "," : "") + pad + cols[k];
    s += nl;
    for (auto& q : ps) {
        for (size_t k = 0; k < cols.size(); k++) s += (k ? "," : "") + pad + col(cols[k], q);
        s += nl;
    }
    return s;
}
string profText(const vector<PI>& ps, double time, size_t declared, const string& sep = " ", const string& lead = "") {
    string s = g(time) + "\n" + std::to_string(declared) + "\n";
    for (auto& q : ps) s += lead + std::to_string(q.type) + sep + g(q.x[0]) + sep + g(q.x[1]) + sep + g(q.x[2]) + sep + g(q.v[0]) + sep + g(q.v[1]) + sep + g(q.v[2]) + "\n";
    return s;
}
// arrays: order of 0 type 1 velocity 2 fluid 3 density 4 pressure 5 number density 6 ratio
string vtuText(const vector<PI>& ps, double time, const vector<int>& arrays, size_t declared, bool timeFirst = false, const string& lead = "") {
    string n = std::to_string(declared), s = "<?xml version='1.0' encoding='UTF-8'?>\n<VTKFile type=\"UnstructuredGrid\" version=\"1.0\" header_type=\"UInt64\" byte_order=\"LittleEndian\">\n<UnstructuredGrid>\n";
    string field = "<FieldData>\n<DataArray type=\"Float64\" Name=\"Time\" NumberOfTuples=\"1\" format=\"ascii\">\n" + lead + g(time) + "\n</DataArray>\n</FieldData>\n";
    if (timeFirst) s += field;
    s += "<Piece NumberOfPoints=\"" + n + "\" NumberOfCells=\"" + n + "\">\n<Points>\n<DataArray type=\"Float64\" Name=\"Position\" NumberOfComponents=\"3\" format=\"ascii\">\n";
    for (auto& q : ps) s += lead + g(q.x[0]) + " " + g(q.x[1]) + " " + g(q.x[2]) + "\n";
    s += "</DataArray>\n</Points>\n<PointData>\n";
    static const char* head[] = {"type=\"Int32\" Name=\"Particle Type\" NumberOfComponents=\"1\"", "type=\"Float64\" Name=\"Velocity\" NumberOfComponents=\"3\"",
                                 "type=\"Int32\" Name=\"Fluid Type\" NumberOfComponents=\"1\"", "type=\"Float64\" Name=\"Density\" NumberOfComponents=\"1\"",
                                 "type=\"Float64\" Name=\"Pressure\" NumberOfComponents=\"1\"", "type=\"Float64\" Name=\"Number Density\" NumberOfComponents=\"1\"",
                                 "type=\"Float64\" Name=\"Number Density Ratio\" NumberOfComponents=\"1\""};
    for (int k : arrays) {
        s += string("<DataArray ") + head[k] + " format=\"ascii\">\n";
        int i = 0;
        for (auto& q : ps) {
            s += lead;
            s += k == 0 ? std::to_string(q.type) : k == 1 ? g(q.v[0]) + " " + g(q.v[1]) + " " + g(q.v[2]) : k == 2 ? std::to_string(q.fluid) : k == 3 ? g(q.rho) : std::to_string(11 * k + i) + ".5";
            s += "\n";
            i++;
        }
        s += "</DataArray>\n";
    }
    s += "</PointData>\n<Cells>\n<DataArray type=\"Int64\" Name=\"connectivity\" NumberOfComponents=\"1\" format=\"ascii\">\n";
    for (size_t i = 0; i < ps.size(); i++) s += std::to_string(i) + "\n";
    s += "</DataArray>\n<DataArray type=\"Int64\" Name=\"offsets\" NumberOfComponents=\"1\" format=\"ascii\">\n";
    for (size_t i = 0; i < ps.size(); i++) s += std::to_string(i + 1) + "\n";
    s += "</DataArray>\n<DataArray type=\"UInt8\" Name=\"types\" NumberOfComponents=\"1\" format=\"ascii\">\n";
    for (size_t i = 0; i < ps.size(); i++) s += "1\n";
    s += "</DataArray>\n</Cells>\n</Piece>\n";
    if (!timeFirst) s += field;
    return s + "</UnstructuredGrid>\n</VTKFile>\n";
}
Child load(int format, const string& path, double def) {
    return child([&]() -> string {
        if (format == 0) { ParticlesLoader::Prof l; return ser(l.load(path, def)); }
        if (format == 1) { ParticlesLoader::Csv l; return ser(l.load(path, def)); }
        ParticlesLoader::Vtu l;
        return ser(l.load(path, def));
    });
}
const char* fmtName(int f) { return f == 0 ? "profile" : f == 1 ? "CSV" : "VTK"; }
const char* ext(int f) { return f == 0 ? ".prof" : f == 1 ? ".csv" : ".vtu"; }
// tol: relative; 0 for exact
string same(const string& data, const vector<PI>& ps, double time, double def, double tol) {
    auto L = linesOf(data);
    if (L.empty()) return "nothing came back";
    auto h = split(L[0], " ");
    auto eq = [&](double a, const string& t) { double b = strtod(t.c_str(), nullptr); return a == b || std::fabs(a - b) <= tol * std::fabs(a); };
    if (!eq(time, h[0])) return "start time is " + h[0] + ", the file says " + g(time);
    if (h[1] != std::to_string(ps.size())) return h[1] + " particles were loaded, the file has " + std::to_string(ps.size());
    for (size_t i = 0; i < ps.size(); i++) {
        auto f = split(L[i + 1], " ");
        double rho = ps[i].rho < 0 ? def : ps[i].rho;
        bool ok = f[0] == std::to_string(i) && f[1] == std::to_string(ps[i].type) && f[2] == std::to_string(ps[i].fluid);
        for (int a = 0; a < 3; a++) ok = ok && eq(ps[i].x[a], f[3 + a]) && eq(ps[i].v[a], f[6 + a]);
        ok = ok && eq(rho, f[9]);
        if (!ok)
            return "particle " + std::to_string(i) + " was loaded as (index type fluidType x y z vx vy vz density) " + L[i + 1] + ", the file says type " + std::to_string(ps[i].type) + " fluidType " +
                   std::to_string(ps[i].fluid) + " x=" + str(ps[i].x) + " v=" + str(ps[i].v) + " density " + g(rho);
    }
    return "";
}

// ---------------------------------------------------------------- C19
void c19(Ctx& x) {
    int fam = x.choose(7, "family");
    spelling = 0;
    // the two families of column orders are large, so that the values vary less there
    bool orders = fam == 2 || fam == 4;
    double def = x.choose(orders && !T() ? 1 : 2) ? 1000 : 850.5;
    int salt = x.choose(orders ? T() ? 2 : 1 : T() ? 8 : 2);
    int n = orders ? x.choose(T() ? 4 : 2) + 2 : x.choose(5);
    double time = std::vector<double>{0.1, 0, 1.25}[x.choose(orders ? 1 : 3)];
    string text, path;
    vector<PI> ps;
    int format = 0;
    double tol = 0;
    bool mustRefuse = false;
    if (fam == 0) { // written by the program
        format = x.choose(4); // 3: binary VTK
        x.shard();
        ps = loadSet(n, salt, format != 0, false);
        for (auto& q : ps) { q.p = 17; q.n = 3.5; q.bc = 3; q.rho = 555; }
        path = dir() + "/w" + (format == 3 ? ".vtu" : ext(format));
        ParticlesExporter e;
        auto o = mc::guarded([&] {
            e.setParticles(real(ps));
            if (format == 0) e.toProf(path, time);
            else if (format == 1) e.toCsv(path, time);
            else e.toVtu(path, time, 2.0, format == 3);
        });
        if (!o.ok()) x.fail("writing ended the program");
        for (auto& q : ps) q.rho = -1; // no format carries the density
        tol = 5.001e-6;
        if (format == 3) { mustRefuse = true; format = 2; }
        text = get(path);
    } else if (fam == 1) { // hand-written profile
        format = 0;
        static const char* seps[] = {" ", "  ", "\t"};
        int s = x.choose(3), lead = x.choose(2), endNl = x.choose(3);
        x.shard();
        ps = loadSet(n, salt, false, false);
        text = profText(ps, time, ps.size(), seps[s], lead ? "  " : "");
        if (endNl == 1) text.pop_back();
        if (endNl == 2) text += "\n\n";
    } else if (fam == 2 || fam == 3) { // CSV columns
        format = 1;
        bool dens = x.flag("density column"), fl = x.flag("fluidType column");
        vector<string> cols = {"type", "x", "y", "z", "vx", "vy", "vz"};
        if (fl) cols.push_back("fluidType");
        if (dens) cols.push_back("density");
        if (fam == 2) { // any order: rotations composed with every swap of two columns
            int k = (int) cols.size();
            int rot = x.choose(k), i = x.choose(k), j = x.choose(k);
            if (j < i) x.prune();
            std::rotate(cols.begin(), cols.begin() + rot, cols.end());
            std::swap(cols[i], cols[j]);
            x.shard();
            ps = loadSet(n, salt, fl, dens);
            text = csvText(ps, time, cols, ps.size());
        } else {
            int miss = x.choose(8); // 7: none missing
            int nl = x.choose(3);
            x.shard();
            ps = loadSet(n, salt, fl, dens);
            if (miss < 7) { cols.erase(cols.begin() + miss); mustRefuse = true; }
            text = csvText(ps, time, cols, ps.size(), nl == 1 ? "\r\n" : "\n", nl == 2 ? " " : "");
        }
    } else if (fam == 4) { // VTK arrays in any order, some absent
        format = 2;
        int subset = x.choose(4); // both optional, no density, no fluid type, neither
        bool tf = x.flag("time first");
        vector<int> arr = {0, 1};
        if (subset != 2 && subset != 3) arr.push_back(2);
        if (subset != 1 && subset != 3) arr.push_back(3);
        if (x.flag("other arrays")) { arr.push_back(4); arr.push_back(5); arr.push_back(6); }
        int k = (int) arr.size(), rot = x.choose(k), i = x.choose(k), j = x.choose(k);
        if (j < i) x.prune();
        std::rotate(arr.begin(), arr.begin() + rot, arr.end());
        std::swap(arr[i], arr[j]);
        x.shard();
        ps = loadSet(n, salt, subset == 0 || subset == 1, subset == 0 || subset == 2);
        text = vtuText(ps, time, arr, ps.size(), tf);
        if (subset == 0 && i == j && x.flag("single quotes")) std::replace(text.begin(), text.end(), '"', '\'');
    } else if (fam == 6) { // numbers written in other ways, indented lines
        format = x.choose(3);
        int sp = x.choose(6);
        string lead = format == 1 ? "" : vector<string>{"", "    ", "\t"}[x.choose(3)];
        x.shard();
        ps = loadSet(n, salt, format != 0, format != 0);
        for (auto& q : ps) if (q.rho < -1e20) q.rho = -2;
        spelling = sp;
        if (format == 0) text = profText(ps, time, ps.size(), " ", lead);
        else if (format == 1) text = csvText(ps, time, {"type", "fluidType", "density", "x", "y", "z", "vx", "vy", "vz"}, ps.size());
        else text = vtuText(ps, time, {0, 1, 2, 3, 5}, ps.size(), false, lead);
        spelling = 0;
    } else { // many particles
        format = x.choose(3);
        int big = x.pick(T() ? vector<int>{60, 700, 1024, 6000, 70000} : vector<int>{60, 700, 1024, 6000}, "particles");
        bool own = x.flag("by the program");
        if (n) x.prune();
        x.shard();
        ps = loadSet(big, salt, format != 0, format != 0 && !own);
        if (own) {
            path = dir() + "/w" + ext(format);
            ParticlesExporter e;
            auto o = mc::guarded([&] {
                e.setParticles(real(ps));
                if (format == 0) e.toProf(path, time);
                else if (format == 1) e.toCsv(path, time);
                else e.toVtu(path, time, 2.0, false);
            });
            if (!o.ok()) x.fail("writing ended the program");
            for (auto& q : ps) q.rho = -1;
            tol = 5.001e-6;
            text = get(path);
        } else if (format == 0) text = profText(ps, time, ps.size());
        else if (format == 1) text = csvText(ps, time, {"type", "fluidType", "density", "x", "y", "z", "vx", "vy", "vz"}, ps.size());
        else text = vtuText(ps, time, {0, 1, 5, 2, 3, 6}, ps.size());
    }
    // the CSV parser of the library in use rounds decimals only to within a few units in the last place
    if (format == 1 && tol == 0) tol = 1e-14;
    if (path.empty()) { path = dir() + "/in" + ext(format); put(path, text); }
    if (x.describing) x.out << fmtName(format) << " file, default density " << def << (mustRefuse ? ", to be refused" : "") << ":\n" << text.substr(0, 900) << "\n";
    Child c = load(format, path, def);
    x.transition();
    if (c.crash || c.hang) x.fail(string("loading the ") + fmtName(format) + " file: " + c.end);
    if (mustRefuse) {
        if (!refused(c)) x.fail(string("the ") + fmtName(format) + " file had to be refused: " + c.end);
        x.tag("refused");
    } else {
        if (!c.accepted) x.fail(string("the ") + fmtName(format) + " file was not accepted: " + c.end + " " + c.err.substr(0, 300));
        string d = same(c.data, ps, time, def, tol);
        if (!d.empty()) x.fail(string(fmtName(format)) + " file: " + d);
        x.tag("accepted");
    }
    x.state(mc::hashString(text));
    x.outcome(mc::hashString(c.data + c.end));
    x.nontrivial();
}

// ---------------------------------------------------------------- C20
void c20(Ctx& x) {
    int format = x.choose(3), source = x.choose(2, "source"); // by hand, by the program
    int n = x.choose(T() ? 7 : 5);
    const bool many = n == (T() ? 6 : 4);
    if (many) n = 120;
    if (many && source == 0 && !T()) x.prune();
    int salt = x.choose(many ? 1 : T() ? 4 : 2);
    bool extra = source == 0 && format != 0 && x.flag("optional columns");
    x.shard();
    vector<PI> ps = loadSet(n, salt, extra, extra);
    for (auto& q : ps) if (extra) q.rho = 900;
    string text;
    auto write = [&](size_t declared) {
        if (format == 0) return profText(ps, 0.5, declared);
        if (format == 1) return csvText(ps, 0.5, extra ? vector<string>{"type", "fluidType", "x", "y", "z", "density", "vx", "vy", "vz"} : vector<string>{"type", "x", "y", "z", "vx", "vy", "vz"}, declared);
        return vtuText(ps, 0.5, extra ? vector<int>{0, 1, 2, 3, 5} : vector<int>{1, 0, 5, 6}, declared);
    };
    if (source == 0) text = write(ps.size());
    else {
        string p = dir() + "/src" + ext(format);
        ParticlesExporter e;
        auto o = mc::guarded([&] { e.setParticles(real(ps)); if (format == 0) e.toProf(p, 0.5); else if (format == 1) e.toCsv(p, 0.5); else e.toVtu(p, 0.5, 2.0, false); });
        if (!o.ok()) x.fail("writing ended the program");
        text = get(p);
    }
    int damage = x.choose(4); // 0 cut, 1 declares more, 2 a line is missing, 3 a field is missing
    string bad;
    string what;
    if (damage == 0) {
        // every line and field boundary: before and after every separator
        vector<size_t> cuts = {0};
        for (size_t i = 1; i <= text.size(); i++) {
            auto sep = [&](char c) { return c == ' ' || c == '\n' || c == ',' || c == '>' || c == '<'; };
            if (many) { if (text[i - 1] == '\n' && text.size() - i > 250) cuts.push_back(i); } // between lines, near the end is for the small files
            else if (i == text.size() || sep(text[i]) || sep(text[i - 1])) cuts.push_back(i);
        }
        size_t at = cuts[x.choose((int) cuts.size())];
        bad = text.substr(0, at);
        what = "cut after " + std::to_string(at) + " of " + std::to_string(text.size()) + " bytes";
        bool rest = text.find_first_not_of(" \n", at) != string::npos;
        if (!rest) { // nothing of substance is missing: must still load
            string p = dir() + "/in" + ext(format);
            put(p, bad);
            Child c = load(format, p, 1000);
            x.transition();
            if (!c.accepted) x.fail(string("the complete ") + fmtName(format) + " file (" + what + ") was not accepted: " + c.end);
            string d = same(c.data, ps, 0.5, 1000, source ? 5.001e-6 : 1e-14);
            if (!d.empty() && !(source == 1)) x.fail(string(fmtName(format)) + " file " + what + ": " + d);
            x.tag("complete");
            return;
        }
    } else if (damage == 1) {
        int more = many ? vector<int>{1, 10, 150}[x.choose(3)] : 1 + x.choose(3);
        if (source == 1) {
            // the program's own file, with the declared number raised
            auto L = linesOf(text);
            if (format < 2) L[1] = std::to_string(n + more);
            bad.clear();
            for (auto& l : L) {
                size_t k = l.find("NumberOfPoints=\"");
                if (format == 2 && k != string::npos) { size_t e = l.find('"', k + 16); l = l.substr(0, k + 16) + std::to_string(n + more) + l.substr(e); }
                bad += l + "\n";
            }
        } else bad = write(n + more);
        what = "declares " + std::to_string(n + more) + " particles, has " + std::to_string(n);
    } else {
        auto L = linesOf(text);
        vector<size_t> rows; // particle rows (VTK: value rows of position, type and velocity arrays)
        if (format < 2) for (size_t i = format == 0 ? 2 : 3; i < L.size(); i++) rows.push_back(i);
        else {
            bool in = false;
            for (size_t i = 0; i < L.size(); i++) {
                if (L[i].find("</DataArray>") != string::npos) in = false;
                else if (L[i].find("Position") != string::npos || L[i].find("Particle Type") != string::npos || L[i].find("Velocity") != string::npos) in = true;
                else if (in) rows.push_back(i);
            }
        }
        if (rows.empty()) x.prune();
        size_t r = rows[x.choose((int) rows.size())];
        if (damage == 2) {
            // an array with a single entry that loses it is an absent array, which is allowed
            if (format == 2 && n == 1) x.prune();
            what = "without line " + std::to_string(r + 1);
            L.erase(L.begin() + r);
        } else {
            // a profile line without one of its fields only shifts the columns; it is the missing end that counts there
            if (format == 0) x.prune();
            auto f = split(L[r], format == 1 ? "," : " ");
            if (f.size() < 2) x.prune();
            size_t k = many ? r % f.size() : x.choose((int) f.size());
            f.erase(f.begin() + k);
            string l;
            for (size_t i = 0; i < f.size(); i++) l += (i ? (format == 1 ? "," : " ") : "") + f[i];
            L[r] = l;
            what = "without field " + std::to_string(k + 1) + " of line " + std::to_string(r + 1);
        }
        for (auto& l : L) bad += l + "\n";
    }
    string p = dir() + "/in" + ext(format);
    put(p, bad);
    if (x.describing) x.out << fmtName(format) << " file of " << n << " particles, " << what << ":\n" << bad.substr(0, 1200) << "\n";
    Child c = load(format, p, 1000);
    x.transition();
    x.state(mc::hashString(bad));
    x.outcome(mc::hashString(c.end));
    // a CSV header that lost only optional columns and declares no rows is a complete file
    if (damage == 0 && format == 1 && n == 0 && c.accepted) {
        auto L = linesOf(bad);
        bool whole = L.size() == 3;
        if (whole) for (auto k : {"type", "x", "y", "z", "vx", "vy", "vz"}) { auto H = split(L[2], ","); if (std::find(H.begin(), H.end(), string(k)) == H.end()) whole = false; }
        if (whole) { x.tag("complete"); return; }
    }
    if (c.crash || c.hang) x.fail(string("loading a damaged ") + fmtName(format) + " file (" + what + "): " + c.end);
    if (!refused(c)) x.fail(string("a damaged ") + fmtName(format) + " file (" + what + ") was not refused: " + c.end + "; loaded: " + c.data.substr(0, 400));
    if (c.end.compare(0, 4, "exit") == 0 && c.err.find_first_not_of(" \n") == string::npos) x.fail(string("a damaged ") + fmtName(format) + " file (" + what + ") was refused without a message");
    x.tag("refused");
    x.nontrivial();
}

// ---------------------------------------------------------------- C21
struct Entry { string key; vector<string> values; bool required; string wrong; };
const vector<Entry>& entries() {
    static const vector<Entry> e = {
        {"dim", {"2", "3"}, true, "two"},
        {"particleDistance", {"0.5", "0.25", "0.1"}, true, "abc"},
        {"dt", {"0.01", "0.02", "0.005"}, true, "[1]"},
        {"endTime", {"1.5", "0.3", "20", "1000000", "0.01"}, true, "later"},
        {"outputPeriod", {"0.05", "0.7", "2", "0.0001", "5000"}, true, "often"},
        {"cflCondition", {"0.9", "0.1", "1.5", "0.003"}, true, "yes please"},
        {"numPhysicalCores", {"1", "8", "3", "64"}, true, "many"},
        {"defaultDensity", {"1100", "998.2", "50", "0.5", "13534"}, true, "water"},
        {"kinematicViscosity", {"0.03", "1.0e-6", "0.2", "0", "40"}, true, "low"},
        {"xyz-input", {"true", "false"}, false, "perhaps"},
        {"gravity", {"[0.3, -9.7, 0.2]", "[1, 2, 3]", "[0, 0, -4]"}, true, "down"},
        {"gravity-norm", {"4.5", "9.8"}, false, "g"},
        {"gravity-angle", {"25", "-60"}, false, "steep"},
        {"surfaceDetection-numberDensity-threshold", {"0.96", "0.5", "0.85", "1.3", "0"}, true, "t"},
        {"surfaceDetection-particleDistribution", {"true", "false"}, true, "2.5"},
        {"surfaceDetection-particleDistribution-threshold", {"0.88", "0.4", "1.2", "0"}, true, "t"},
        {"pressureCalculationMethod", {"Implicit", "Explicit"}, true, "[Implicit]"},
        {"compressibility", {"0.0021", "1.0e-5", "0.3", "1.0e-12", "45"}, true, "c"},
        {"relaxationCoefficientForPressure", {"0.21", "0.5", "1", "1.7", "0.002"}, true, "r"},
        {"soundSpeed", {"17", "3", "1500", "0.2"}, true, "fast"},
        {"collisionDistanceRatio", {"0.51", "0.9", "0.2", "1.4", "0"}, true, "near"},
        {"coefficientOfRestitution", {"0.23", "0", "1", "1.2"}, true, "e"},
        {"radiusRatioForNumberDensity", {"2.1", "1.7", "3.3"}, true, "re"},
        {"radiusRatioForGradient", {"2.3", "1.6", "3.4"}, true, "re"},
        {"radiusRatioForLaplacian", {"3.1", "1.9", "2.2"}, true, "re"},
        {"domainMin", {"[-1.5, -2.5, 0.0]", "[-9, -4, -1]", "[0, 0, 0]"}, true, "0"},
        {"domainMax", {"[4.5, 6.5, 0.0]", "[10, 12, 1]", "[3, 5, 2]"}, true, "1"},
        {"particlesPath", {"in.csv", "sub/in.prof", "../data/in.vtu"}, true, "[a, b]"},
        {"outputVtkInBinary", {"true", "false"}, false, "some"},
    };
    return e;
}
vector<double> seq(const string& s) { vector<double> r; for (auto& t : split(s, "[], ")) r.push_back(strtod(t.c_str(), nullptr)); return r; }
string settingsSer(const Settings& s) {
    std::ostringstream o;
    o << std::setprecision(17) << s.dim << ' ' << s.particleDistance << ' ' << s.dt << ' ' << s.endTime << ' ' << s.outputPeriod << ' ' << s.cflCondition << ' ' << s.defaultDensity << ' ' << s.kinematicViscosity << ' '
      << s.xyzInput << ' ' << s.gravity[0] << ' ' << s.gravity[1] << ' ' << s.gravity[2] << ' ' << s.gNorm << ' ' << s.gAngle << ' ' << s.surfaceDetection_numberDensity_threshold << ' '
      << s.surfaceDetection_particleDistribution << ' ' << s.surfaceDetection_particleDistribution_threshold << ' ' << s.pressureCalculationMethod << ' ' << s.compressibility << ' ' << s.relaxationCoefficientForPressure << ' '
      << s.soundSpeed << ' ' << s.collisionDistance << ' ' << s.coefficientOfRestitution << ' ' << s.re_forNumberDensity << ' ' << s.re_forGradient << ' ' << s.re_forLaplacian << ' ' << s.reMax << ' ' << s.domain.xMin << ' '
      << s.domain.xMax << ' ' << s.domain.yMin << ' ' << s.domain.yMax << ' ' << s.domain.zMin << ' ' << s.domain.zMax << ' ' << s.domain.xLength << ' ' << s.domain.yLength << ' ' << s.domain.zLength << ' ' << s.outputVtkInBinary << ' '
      << s.numPhysicalCores;
    return o.str();
}
void c21(Ctx& x) {
    auto& E = entries();
    int fam = x.choose(4, "family"); // 0 values, 1 entry missing, 2 entry of the wrong kind, 3 lists of the wrong shape
    vector<int> val(E.size(), 0), state(E.size(), 0); // state 1: absent, 2: wrong
    int cwd = 0, order = 0;
    string note;
    if (fam == 0) { // every pair of entries with every pair of values, plus paths
        int i = x.choose((int) E.size()), j = x.choose((int) E.size());
        if (j < i) x.prune();
        int vi = x.choose((int) E[i].values.size() + (E[i].required ? 0 : 1)), vj = j == i ? 0 : x.choose((int) E[j].values.size() + (E[j].required ? 0 : 1));
        x.shard();
        if (j != i) { val[j] = vj; if (vj == (int) E[j].values.size()) state[j] = 1; }
        val[i] = vi; if (vi == (int) E[i].values.size()) state[i] = 1;
        if (E[i].key == "particlesPath" || i == j) { cwd = x.choose(3); order = x.choose(2); }
    } else if (fam == 1 || fam == 2) {
        int i = x.choose((int) E.size());
        x.shard();
        if (fam == 1 && !E[i].required) x.prune();
        state[i] = fam;
        order = x.choose(2);
        note = E[i].key;
    }
    static const char* shapes[] = {"gravity: [0, -9.8]", "gravity: []", "domainMin: [0, 0]", "domainMax: [1]", "domainMin: [a, 0, 0]", "domainMax: [1, b, 0]", "gravity: [0, 0, c]", "dim: 2.5", "particleDistance: ", "dt: {a: 1}",
                                   "pressureCalculationMethod: implicit", "pressureCalculationMethod: Semi", "pressureCalculationMethod: ''", "particlesPath: in.txt", "particlesPath: in", "particlesPath: missing.csv", "particlesPath: missing.prof", "particlesPath: missing.vtu"};
    int shape = -1;
    if (fam == 3) { shape = x.choose((int) (sizeof shapes / sizeof *shapes)); x.shard(); note = shapes[shape]; }
    // files
    string d = dir() + "/c21";
    for (auto& s : {d, d + "/set", d + "/set/sub", d + "/data"}) mkdir(s.c_str(), 0755);
    vector<PI> ps = loadSet(3, 0, false, false);
    for (auto& q : ps) { q.x = q.x * 0.001; if (q.type == 0) q.type = 1; }
    ps[0].x = {0.1, 0.2, 0}; ps[1].x = {0.33, 0.21, 0}; ps[2].x = {0.22, 0.41, 0};
    for (auto& q : ps) q.v = q.v * 0.01;
    put(d + "/set/in.csv", csvText(ps, 0.25, {"type", "x", "y", "z", "vx", "vy", "vz"}, 3));
    put(d + "/set/in.txt", csvText(ps, 0.25, {"type", "x", "y", "z", "vx", "vy", "vz"}, 3));
    put(d + "/set/in", csvText(ps, 0.25, {"type", "x", "y", "z", "vx", "vy", "vz"}, 3));
    put(d + "/set/sub/in.prof", profText(ps, 0.5, 3));
    put(d + "/data/in.vtu", vtuText(ps, 0.75, {0, 1}, 3));
    // decoys: the same names where a wrong base directory would look
    put(d + "/in.csv", "9\n0\ntype,x,y,z,vx,vy,vz\n");
    put(d + "/data/in.csv", "9\n0\ntype,x,y,z,vx,vy,vz\n");
    auto value = [&](size_t i) { return E[i].values[val[i] % E[i].values.size()]; };
    string yaml;
    for (size_t k = 0; k < E.size(); k++) {
        size_t i = order ? E.size() - 1 - k : k;
        if (state[i] == 1) continue;
        if (shape >= 0 && string(shapes[shape]).compare(0, E[i].key.size() + 1, E[i].key + ":") == 0) { yaml += string(shapes[shape]) + "\n"; continue; }
        yaml += E[i].key + ": " + (state[i] == 2 ? E[i].wrong : value(i)) + "\n";
    }
    put(d + "/set/s.yml", yaml);
    string outdir = d + "/out";
    mkdir(outdir.c_str(), 0755);
    for (auto n : {"s.yml", "in.csv", "in.prof", "in.vtu", "in.txt", "in"}) unlink((outdir + "/" + n).c_str());
    if (x.describing) x.out << "settings (cwd " << cwd << "):\n" << yaml;
    Child c = child([&]() -> string {
        string s = d + "/set/s.yml", o = outdir;
        if (cwd == 1) { if (chdir((d + "/set").c_str())) return "?"; s = "s.yml"; }
        if (cwd == 2) { if (chdir((d + "/data").c_str())) return "?"; s = "../set/s.yml"; o = "../out"; }
        Loader l;
        Input in = l.load(s, o);
        MPS m = MPSFactory::create(in);
        string r = settingsSer(in.settings) + "\n" + ser({in.startTime, in.particles});
        std::ostringstream t;
        t << std::setprecision(17) << m.gravity[0] << ' ' << m.gravity[1] << ' ' << m.gravity[2];
        m.stepForward();
        for (auto& p : m.particles) t << ' ' << p.position.x() << ' ' << p.position.y() << ' ' << p.velocity.x() << ' ' << p.velocity.y() << ' ' << p.pressure << ' ' << p.numberDensity;
        return r + "\x01" + t.str();
    });
    x.transition();
    x.state(mc::hashString(yaml + std::to_string(cwd)));
    x.outcome(mc::hashString(c.data + c.end));
    if (c.crash || c.hang) x.fail("with " + note + ": " + c.end);
    if (fam != 0) {
        if (!refused(c)) x.fail(string(fam == 1 ? "settings without " : fam == 2 ? "settings with a wrong kind of " : "settings with ") + note + " were not refused: " + c.end);
        x.tag("refused");
        x.nontrivial();
        return;
    }
    if (!c.accepted) x.fail("valid settings were refused: " + c.end + " " + c.err.substr(0, 300));
    // expected values, computed here
    auto v = [&](const string& k) { for (size_t i = 0; i < E.size(); i++) if (E[i].key == k) return state[i] ? string() : value(i); return string(); };
    auto D = [&](const string& k) { return strtod(v(k).c_str(), nullptr); };
    auto B = [&](const string& k) { return v(k) == "true" ? "1" : "0"; };
    double l0 = D("particleDistance");
    auto gr = seq(v("gravity")), lo = seq(v("domainMin")), hi = seq(v("domainMax"));
    std::ostringstream o;
    bool xyz = v("xyz-input").empty() || v("xyz-input") == "true";
    double rN = D("radiusRatioForNumberDensity") * l0, rG = D("radiusRatioForGradient") * l0, rL = D("radiusRatioForLaplacian") * l0;
    o << std::setprecision(17) << (int) D("dim") << ' ' << l0 << ' ' << D("dt") << ' ' << D("endTime") << ' ' << D("outputPeriod") << ' ' << D("cflCondition") << ' ' << D("defaultDensity") << ' ' << D("kinematicViscosity") << ' ' << xyz << ' '
      << gr[0] << ' ' << gr[1] << ' ' << gr[2] << ' ' << D("gravity-norm") << ' ' << D("gravity-angle") << ' ' << D("surfaceDetection-numberDensity-threshold") << ' ' << B("surfaceDetection-particleDistribution") << ' '
      << D("surfaceDetection-particleDistribution-threshold") << ' ' << v("pressureCalculationMethod") << ' ' << D("compressibility") << ' ' << D("relaxationCoefficientForPressure") << ' ' << D("soundSpeed") << ' '
      << D("collisionDistanceRatio") * l0 << ' ' << D("coefficientOfRestitution") << ' ' << rN << ' ' << rG << ' ' << rL << ' ' << std::max({rN, rG, rL}) << ' ' << lo[0] << ' ' << hi[0] << ' ' << lo[1] << ' ' << hi[1] << ' ' << lo[2] << ' '
      << hi[2] << ' ' << hi[0] - lo[0] << ' ' << hi[1] - lo[1] << ' ' << hi[2] - lo[2] << ' ' << (v("outputVtkInBinary") == "true") << ' ' << (int) D("numPhysicalCores");
    auto got = split(linesOf(c.data)[0], " "), want = split(o.str(), " ");
    static const char* names[] = {"dim", "particleDistance", "dt", "endTime", "outputPeriod", "cflCondition", "defaultDensity", "kinematicViscosity", "xyz-input", "gravity x", "gravity y", "gravity z", "gravity-norm", "gravity-angle",
                                  "surface threshold", "surface distribution", "distribution threshold", "pressure method", "compressibility", "relaxation", "soundSpeed", "collision distance", "restitution", "radius number density",
                                  "radius gradient", "radius Laplacian", "largest radius", "domain xMin", "domain xMax", "domain yMin", "domain yMax", "domain zMin", "domain zMax", "domain xLength", "domain yLength", "domain zLength",
                                  "outputVtkInBinary", "numPhysicalCores"};
    if (got.size() != want.size()) x.fail("settings came back incomplete");
    for (size_t i = 0; i < want.size(); i++) {
        double a = strtod(got[i].c_str(), nullptr), b = strtod(want[i].c_str(), nullptr);
        bool ok = got[i] == want[i] || (i != 17 && std::fabs(a - b) <= 1e-12 * std::max(std::fabs(a), std::fabs(b)));
        if (!ok) x.fail(string(names[i]) + " is " + got[i] + " in the simulation, the settings file says " + want[i]);
    }
    double t0 = v("particlesPath") == "in.csv" ? 0.25 : v("particlesPath") == "sub/in.prof" ? 0.5 : 0.75;
    size_t nl = c.data.find('\n'), sep = c.data.find('\x01');
    string e = same(c.data.substr(nl + 1, sep - nl - 1), ps, t0, D("defaultDensity"), 1e-14);
    if (!e.empty()) x.fail("particles of the file named by particlesPath: " + e);
    // and the settings act: one step of the created simulation
    Params p;
    p.dim = (int) D("dim"); p.l0 = l0; p.dt = D("dt"); p.nu = D("kinematicViscosity"); p.g = {gr[0], gr[1], gr[2]}; p.xyz = xyz; p.gNorm = D("gravity-norm"); p.gAngle = D("gravity-angle");
    p.reN = rN; p.reG = rG; p.reL = rL; p.thrN = D("surfaceDetection-numberDensity-threshold"); p.dist = v("surfaceDetection-particleDistribution") == "true"; p.thrD = D("surfaceDetection-particleDistribution-threshold");
    p.implicit = v("pressureCalculationMethod") == "Implicit"; p.comp = D("compressibility"); p.gamma = D("relaxationCoefficientForPressure"); p.c = D("soundSpeed"); p.colDist = D("collisionDistanceRatio") * l0;
    p.rest = D("coefficientOfRestitution"); p.lo = {lo[0], lo[1], lo[2]}; p.hi = {hi[0], hi[1], hi[2]};
    ref::Model r(p);
    for (auto& q : ps) r.ps.push_back({q.type, q.x, q.v, D("defaultDensity")});
    V3 gv = r.gravity();
    r.step();
    auto f = split(c.data.substr(sep + 1), " ");
    for (int a = 0; a < 3; a++) if (!close(strtod(f[a].c_str(), nullptr), gv[a], 1e-12)) x.fail("gravity in the simulation is " + f[a] + ", expected " + mc::num(gv[a]));
    if (!r.ambiguous && !r.multi) {
        double pm = 1;
        for (auto& q : r.ps) pm = std::max(pm, q.p);
        for (size_t i = 0; i < ps.size(); i++) {
            auto F = [&](int k) { return strtod(f[3 + 6 * i + k].c_str(), nullptr); };
            auto& q = r.ps[i];
            if (!close(F(0), q.x[0], 1e-7) || !close(F(1), q.x[1], 1e-7) || !close(F(2), q.v[0], 1e-6) || !close(F(3), q.v[1], 1e-6) || std::fabs(F(4) - q.p) > 1e-6 * pm || !close(F(5), q.n, 1e-8))
                x.fail("after one step with these settings particle " + std::to_string(i) + " is x=(" + f[3 + 6 * i] + "," + f[4 + 6 * i] + ") v=(" + f[5 + 6 * i] + "," + f[6 + 6 * i] + ") p=" + f[7 + 6 * i] + " n=" + f[8 + 6 * i] + ", expected " + str(q));
        }
    } else x.inconclusive();
    x.tag("accepted");
    x.nontrivial();
}
} // namespace

int main(int argc, char** argv) { return mc::mainWith(argc, argv, {{"C18", c18}, {"C19", c19}, {"C20", c20}, {"C21", c21}}); }
