// C13: analysing stored output step by step equals analysing during the run.
#include "progs.h"
#include <math.h>
#include <complex>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <sys/stat.h>
#include "tools/Collector.h"
using namespace QDLIB;
using namespace sim;

static const char* muts[] = {"-", "format", "wc1", "one", "extra", "missing", "cut", "more", "nometa", "unzip"};
static void gen(Rng& r, int tier, Plan& p)
{
   rand_system(r, tier, p);
   str sys = p.get("sys");
   bool las = sys == "gdip" || sys == "mdip";
   int k = r.below(10);
   str mode = k < 7 || las ? "filter" : k < 8 ? "ac" : "cfunc";
   std::vector<str> w = rand_node(r, tier, p, 'p', "o0");
   str set;
   for (int i = r.range(1, 4); i > 0; i--) set += "abcdefghi"[r.below(9)];
   bool readonly = set.find_first_of("cfg") == str::npos;
   for (auto x : {"nfile=0", "init=", "proj0=0", "spectrum=0"}) w.push_back(x);
   w.push_back("pre=" + (mode == "filter" && r.chance(85) ? set : str("")));
   w.push_back("post=" + (mode == "filter" && readonly ? set : str("")));
   str ren = fmt("renorm=%d", (int) r.below(2));
   w.push_back(ren);
   if (mode != "filter") for (auto& x : {fmt("steps=%ld", Words(w).num("steps", 4, 1, 400) + 4), str(mode == "cfunc" ? "wf=" : "unused=")}) w.push_back(x);
   p.ops.push_back(w);
   Words W(w);
   if (mode == "filter") p.op({"filter", "path=o0", "dir=o1", "def=" + set, ren, r.chance(15) ? "fname=table" : "fname="});
   else {
      std::vector<str> a = rand_node(r, tier, p, mode == "ac" ? 'a' : 'c', "o1");
      for (str x : {"U=" + W.get("U"), "order=" + W.get("order", "4"), "steps=" + W.get("steps"), "wcycle=" + W.get("wcycle", "1"), "wf=" + W.get("wf"), str("pre=0")}) a.push_back(x);
      p.ops.push_back(a);
   }
   p.set("mut", r.chance(25) ? 0 : r.below(10));
   p.set("at", r.below(40));
   p.set("len", r.below(1000));
   p.set("fill", r.below(256));
}
static void faults(Rng& r, int tier, Plan& p, const Outcome& b)
{
   static const std::vector<FaultMenu> kill = {{-1, "crash", 0, 0, 6}, {E_WRITE, "crashmid", 0, 400, 5}, {E_OPEN, "crash", 0, 0, 3}, {E_RENAME, "crash", 0, 0, 3}};
   static const std::vector<FaultMenu> menu = {{E_OPEN, "fail", 0, 0, 5}, {E_READ, "fail", 0, 0, 6}, {E_READ, "short", 0, 100, 4}, {E_READ, "eintr", 0, 0, 2}, {E_READ, "eio", 0, 0, 3},
      {E_READ, "tear", 1, 100, 6}, {E_READ, "eof", 0, 0, 3}, {E_STAT, "fail", 0, 0, 3}, {E_WRITE, "fail", 0, 0, 2}, {E_WRITE, "full", 0, 400, 2}, {E_CLOSE, "fail", 0, 0, 2}, {E_ALLOC, "enomem", 0, 0, 3}};
   if (r.chance(35)) add_faults(r, p, b, kill, 1, 0, 0);
   else add_faults(r, p, b, menu, r.chance(75) ? 1 : 2, 1, 1);
}
typedef std::vector<double> Row;
static std::vector<Row> table(const str& t)
{
   std::vector<Row> v;
   auto lines = split(t, '\n');
   for (size_t i = 1; i < lines.size(); i++) {
      str s = lines[i];
      for (size_t k = 0; k < s.size(); k++)   // complex numbers: (re,im) or re,imi
         if (s[k] == '(' || s[k] == ')' || s[k] == ',' || (s[k] == 'i' && k && (isdigit(s[k - 1]) || s[k - 1] == '.'))) s[k] = ' ';
      Row row;
      char* e;
      for (const char* q = s.c_str();; q = e) {
         double x = strtod(q, &e);
         if (e == q) break;
         row.push_back(x);
      }
      if (!row.empty()) v.push_back(row);
   }
   return v;
}
// step table of the program output: step, time, population (of each state)
static std::vector<Row> report(const str& t)
{
   size_t a = t.find("Step\tTime[au]");
   std::vector<Row> v;
   if (a == str::npos) return v;
   str rows;
   for (auto& l : split(t.substr(a), '\n')) {   // (warnings may stand between the rows)
      size_t d = 0;
      while (d < l.size() && isdigit(l[d])) d++;
      if (d && d < l.size() && l[d] == '\t') rows += "\n" + l;
   }
   for (auto& row : table(rows))
      if (row.size() >= 3) v.push_back(row);
   return v;
}
// "" if the two files hold the same numbers (text tables, raw correlation functions) or, of other kinds, if they exist
static str diff_numbers(const str& f, const str& want, const str& got)
{
   str ext = f.rfind('.') == str::npos ? "" : f.substr(f.rfind('.'));
   if (want == got) return "";
   if (ext == ".cf") {
      if (want.size() != got.size()) return f + fmt(" has %zu bytes, expected %zu", got.size(), want.size());
      double sc = 0;
      std::vector<double> u(want.size() / 8), v(got.size() / 8);
      memcpy(u.data(), want.data(), u.size() * 8);
      memcpy(v.data(), got.data(), v.size() * 8);
      for (auto x : u)
         if (fabs(x) > sc) sc = fabs(x);
      for (size_t i = 0; i < u.size(); i++)
         if (!(fabs(u[i] - v[i]) <= 1e-9 * sc)) return f + fmt(" value %zu: %.12g, expected %.12g", i, v[i], u[i]);
      return "";
   }
   if (ext == ".wf" || ext == ".meta" || ext == ".op") return "";   // (their descriptions depend on the format read)
   std::vector<Row> a = table(want), b = table(got);
   if (a.size() != b.size()) return f + fmt(" has %zu rows, expected %zu", b.size(), a.size());
   for (size_t j = 0; j < a.size(); j++) {
      if (a[j].size() != b[j].size()) return f + fmt(" row %zu has %zu numbers, expected %zu", j, b[j].size(), a[j].size());
      for (size_t i = 0; i < a[j].size(); i++) {
         double sc = 1e-3;
         for (auto& r : a)
            if (i < r.size() && fabs(r[i]) > sc) sc = fabs(r[i]);
         if (!(fabs(a[j][i] - b[j][i]) <= 1e-8 * sc) && !(a[j][i] != a[j][i] && b[j][i] != b[j][i])) return f + fmt(" row %zu column %zu: %.12g, expected %.12g", j, i, b[j][i], a[j][i]);
      }
   }
   return "";
}
// the expectation values of the stored steps, computed without the filter code; e (momentum) is left to the other comparisons
typedef std::complex<double> cplx;
static std::vector<Row> own_table(const Plan& p, const str& base, const str& set, bool renorm, long nf, double dt)
{
   str sys = p.get("sys");
   bool multi = sys == "multi", grid = sys != "level" && sys != "mdip";
   std::vector<double> pot, mat;
   {
      AnyObj o = make_obj(input_spec(p, "pot1"));
      for (int i = 0; i < o.pot->size(); i++) pot.push_back((*o.pot)[i]);
      AnyObj m = make_obj(input_spec(p, "mat1"));
      for (int i = 0; i < m.mat->rows(); i++)
         for (int k = 0; k < m.mat->cols(); k++) mat.push_back((*m.mat)(i, k));
   }
   typedef std::vector<cplx> Vec;
   double dv = 1;
   std::vector<double> x;   // coordinate of each point
   size_t ns = 0;           // elements of one state
   auto values = [&](QDLIB::WaveFunction* w) {
      std::vector<double> v;
      describe_values(w, v);
      Vec c;
      for (size_t i = 0; i + 1 < v.size(); i += 2) c.push_back(cplx(v[i], v[i + 1]));
      if (ns) return c;
      ns = multi ? c.size() / 2 : c.size();
      QDLIB::WFMultistate* m = dynamic_cast<QDLIB::WFMultistate*>(w);
      QDLIB::WFGridSystem* g = dynamic_cast<QDLIB::WFGridSystem*>(m ? m->State(0) : w);
      if (!g) return c;
      for (int i = 0; i < g->Dim(); i++) dv *= (g->Xmax(i) - g->Xmin(i)) / (g->DimSize(i) - 1);
      for (size_t i = 0; i < ns; i++) x.push_back(g->Xmin(0) + (g->Xmax(0) - g->Xmin(0)) / (g->DimSize(0) - 1) * (i % g->DimSize(0)));
      return c;
   };
   auto dot = [&](const Vec& a, const Vec& b, size_t i, size_t k, size_t n) {
      cplx s = 0;
      for (size_t j = 0; j < n; j++) s += std::conj(a[i + j]) * b[k + j];
      return s * dv;
   };
   std::vector<Row> t;
   std::vector<cplx> sum(set.size());
   std::vector<Vec> ef;
   for (long j = 0; j <= nf; j++) {
      Loaded got;
      SaveCfg c;
      c.name = base;
      c.spec = input_spec(p, "f0");
      c.format = p.num("stream") == 2 ? "binary" : "auto";
      c.comp = "none";
      c.seq = j;
      str e = load_obj(c, "meta", NULL, got);
      if (!e.empty()) {
         emit("error", fmt("step %ld: ", j) + e);
         return t;
      }
      Vec v = values(got.wf);
      DELETE_WF(got.wf);
      if (ef.empty())
         for (auto n : {"ef_0", "ef_1"}) {
            QDLIB::WaveFunction* w = make_wf(input_spec(p, n));
            ef.push_back(values(w));
            double s = sqrt(dot(ef.back(), ef.back(), 0, 0, v.size()).real());
            for (auto& z : ef.back()) z /= s;
            DELETE_WF(w);
         }
      Row row(1, j * dt);
      for (size_t i = 0; i < set.size(); i++) {
         cplx m = 0;
         double norm = dot(v, v, 0, 0, v.size()).real();
         char o = set[i], k = o;
         if (o == 'h') k = 'a';
         if (o == 'i') k = 'b';
         if (k == 'b' && (!grid || multi)) k = 'a';
         if (multi && (o == 'h' || o == 'i')) m = o == 'h' ? dot(v, v, 0, ns, ns) : dot(v, v, ns, 0, ns);
         else if (o == 'f' || o == 'g') {
            for (auto& z : v) z *= o == 'f' ? 1 / sqrt(norm) : 0.75;
            continue;
         } else if (o == 'c') m = 0.75 * norm;
         else if (o == 'd') for (auto& f : ef) m += std::norm(dot(f, v, 0, 0, v.size()));
         else if (o == 'e') m = NAN;
         else {
            Vec u(v);
            if (multi) for (size_t q = ns; q < u.size(); q++) u[q] = 0;
            for (size_t q = 0; q < ns; q++) {
               if (grid) u[q] = v[q] * (k == 'b' ? pot[q] : x[q]);
               else {
                  u[q] = 0;
                  for (size_t l = 0; l < ns; l++) u[q] += mat[q * ns + l] * v[l];
               }
            }
            m = dot(v, u, 0, 0, v.size());
         }
         if (renorm && !(multi && (o == 'h' || o == 'i'))) m /= norm;
         if (o == 'c') for (auto& z : v) z *= 0.75;
         bool add = o == (multi ? 'i' : 'h');
         if (add) m = sum[i] += m * dt;
         if (o == (multi ? 'h' : 'i')) m = std::abs(m);
         row.push_back(m.real());
         if (add) row.push_back(m.imag());
      }
      t.push_back(row);
   }
   return t;
}
static str tail(const str& t) { return t.size() > 160 ? t.substr(t.size() - 160) : t; }
// a table whose time axis belongs to the first digits of the stored time step gets the expected one
static str undo_cut_dt(const str& meta, const str& want, const str& got)
{
   str v;
   for (auto& l : split(meta, '\n'))
      if (l.compare(0, 2, "dt") == 0) v = l.substr(l.find_first_not_of(" =", 2));
   auto x = split(want, '\n'), y = split(got, '\n');
   for (size_t n = 1; n < v.size() && x.size() == y.size(); n++) {
      double k = atof(v.substr(0, n).c_str()) / atof(v.c_str());
      if (!(k != 0)) continue;
      str r;
      size_t fit = 0;
      for (size_t i = 0; i < x.size(); i++) {
         size_t a = x[i].find_first_of(" \t", x[i].find_first_not_of(" \t") + 0), b = y[i].find_first_of(" \t", y[i].find_first_not_of(" \t") + 0);
         double p = atof(x[i].c_str()), q = atof(y[i].c_str());
         bool ok = a != str::npos && b != str::npos && fabs(p * k - q) <= 1e-6 * fabs(p);
         if (ok) r += x[i].substr(0, a) + y[i].substr(b) + "\n", fit++;
         else r += y[i] + "\n";
      }
      if (fit + 1 >= x.size()) return r;
   }
   return got;
}
static Outcome exec(const Plan& p)
{
   Outcome o;
   if (p.ops.size() != 2 || p.ops[0][0] != "propa") return o;
   str mode = p.ops[1][0], mut = muts[std::max(0l, std::min(9l, p.num("mut")))];
   if (mode != "filter" && mode != "ac" && mode != "cfunc") return o;
   Words w(p.ops[0]), wa(p.ops[1]);
   long steps = w.num("steps", 4, 1, 400), wc = w.num("wcycle", 1, 1, 400), nf = steps / wc;
   str od = p.num("gdir") ? "base" : w.get("dir", "o0"), ad = p.num("gdir") ? "base" : wa.get("dir", "o1");
   str fname = w.get("fname").empty() ? str("WF") : w.get("fname"), base = od + "/" + fname;
   if (nf < 1) return o;   // no complete write cycle: nothing is described, there is nothing to analyse
   if (mode == "ac" && nf < 3) return o;
   str set = wa.get("def", "a");
   bool readonly = set.find_first_of("cfg") == str::npos, multi = p.get("sys") == "multi";
   bool table_out = set.find_first_of("abcdehi") != str::npos;
   str tab = ad + "/" + (wa.get("fname").empty() ? str("expec.dat") : wa.get("fname"));
   std::vector<str> result;   // the files the analysis delivers
   if (mode == "filter") {
      if (table_out) result.push_back(tab);
   }
   Plan pa = p, pb = p;
   pa.ops.resize(1);
   pb.ops.erase(pb.ops.begin());
   if (mode != "filter") pb.ops[0].push_back("read=" + od);
   if (mode == "cfunc") pb.ops[0].push_back("pre=0");
   ChildOpts co;
   co.fill = p.num("fill", 0xa5);
   auto run = [&](const str& d) {
      ChildResult c = run_child(d, co, []() { return run_qdng({"-p1", "in.xml"}); });
      o.add(c);
      return c;
   };
   auto ok = [](const ChildResult& c) { return c.how == ChildResult::EXIT && c.code == 0; };
   auto xml = [&](const str& d, const Plan& q) { write_file(d + "/in.xml", read_tree(make_inputs(q, "inx"))["in.xml"]); };

   // the propagation, analysed while it runs
   str in = make_inputs(p, "in");
   str da = fresh_dir("propa");
   copy_tree(in, da);
   xml(da, pa);
   auto t0 = read_tree(da);
   ChildResult a = run(da);
   str ra = stdout_text();
   if (!ok(a)) {
      o.fail("propagation-fails", a.how_text() + " " + tail(ra));
      return o;
   }
   auto ta = read_tree(da);
   // the analysis of the stored files
   auto analyse = [&](const str& name, const std::map<str, str>& tree, ChildResult& c, str& text) {
      str d = fresh_dir(name);
      for (auto x : {od, ad, str("base"), str("o0"), str("o1")}) mkdir((d + "/" + x).c_str(), 0700);
      for (auto& e : tree)
         if (e.first != "in.xml" && e.first != "wisdom") write_file(d + "/" + e.first, e.second);
      xml(d, pb);
      auto before = read_tree(d);
      c = run(d);
      text = stdout_text();
      return outputs(read_tree(d), before);
   };
   ChildResult b;
   str rb;
   auto want = analyse("ana", ta, b, rb);
   o.state = b.log_hash;
   o.cnt[0] = a.cnt[0];
   o.cnt[1] = b.cnt[0];
   if (verbose) o.log += rb;
   if (!ok(b)) {
      o.fail("analysis-fails", b.how_text() + " " + tail(rb));
      return o;
   }
   if (mode != "filter")
      for (auto& e : want) result.push_back(e.first);
   o.probes[mode + "_analyses"]++;
   for (auto& f : result)
      if (!want.count(f)) o.fail("analysis-without-result", f);
   if (!o.cls.empty()) return o;

   bool lossy = p.num("zip") > 0;
   // numbers agree to the printed precision; lossy storage moves them a little
   auto compare = [&](const str& what, long j, long k, const Row& x, const Row& y, const std::vector<double>& scale, size_t from, double rel) {
      if (x.size() != y.size()) {
         o.fail("different-columns", fmt("%s: row %ld has %zu numbers, %zu expected", what.c_str(), j, x.size(), y.size()));
         return;
      }
      for (size_t i = from; i < x.size(); i++) {
         double sc = i < scale.size() ? scale[i] : 1;
         if (!(fabs(x[i] - y[i]) <= rel * sc + 1e-12) && !(x[i] != x[i] && y[i] != y[i]))
            o.fail("analysis-differs", fmt("%s: stored step %ld column %zu is %.12g, in the run (step %ld) it was %.12g", what.c_str(), j, i, x[i], k, y[i]));
      }
   };
   auto scales = [](const std::vector<Row>& t) {
      std::vector<double> s;
      for (auto& row : t)
         for (size_t i = 0; i < row.size(); i++) {
            if (s.size() <= i) s.resize(i + 1);
            if (fabs(row[i]) > s[i]) s[i] = fabs(row[i]);
         }
      return s;
   };
   double rel = lossy ? 0.05 : 2e-9;
   if (mode == "filter") {
      std::vector<Row> f = table_out ? table(want[tab]) : std::vector<Row>(), rf = report(rb), rp = report(ra);
      double dt = 0;
      for (auto& l : split(ta[od + "/Propagation.meta"], '\n'))
         if (l.compare(0, 2, "dt") == 0) dt = atof(l.substr(l.find('=') + 1).c_str());
      if (table_out && (long) f.size() != nf + 1) o.fail("wrong-number-of-steps", fmt("%zu rows, %ld stored steps", f.size(), nf + 1));
      if ((long) rf.size() != nf + 1) o.fail("wrong-number-of-steps", fmt("the program reports %zu steps, %ld are stored", rf.size(), nf + 1));
      for (size_t j = 0; j < f.size(); j++)
         if (fabs(f[j][0] - j * wc * dt) > 1e-5 * (1 + j * wc * dt)) o.fail("wrong-time", fmt("row %zu: %g, expected %g", j, f[j][0], j * wc * dt));
      if (table_out && o.cls.empty()) {
         ChildResult c = run_child(da, co, [&]() {
            Quiet q;
            for (auto& row : own_table(p, base, set, wa.num("renorm", 0, 0, 1), nf, wc * dt)) {
               str s;
               for (auto v : row) s += fmt("%.17g ", v);
               emit("row", s);
            }
            return 0;
         });
         std::vector<Row> own;
         str text;
         for (auto& e : c.out) {
            if (e.first == "error") o.fail("stored-step-unreadable", e.second);
            else if (e.first == "row") text += "\n" + e.second;
         }
         own = table(text);
         auto sc = scales(own);
         if (!ok(c) || own.size() != f.size()) o.fail("stored-step-unreadable", c.how_text());
         for (size_t j = 0; j < f.size() && o.cls.empty(); j++)
            for (size_t i = 1; i < f[j].size(); i++) {
               double y = i < own[j].size() ? own[j][i] : 0;
               if (own[j].size() != f[j].size()) o.fail("different-columns", fmt("row %zu has %zu numbers, %zu expected", j, f[j].size(), own[j].size()));
               else if (y == y && !(fabs(f[j][i] - y) <= 2e-9 * std::max(1e-2, sc[i]))) o.fail("wrong-value", fmt("stored step %zu column %zu is %.12g, computed from the stored wave function: %.12g", j, i, f[j][i], y));
            }
         o.probes["rows_computed"] += own.size();
      }
      bool pre = w.get("pre") == set && w.get("renorm") == wa.get("renorm"), post = w.get("post") == set && readonly && w.get("renorm") == wa.get("renorm");
      // columns that add up over time only compare if every step was stored
      std::vector<bool> sum(1, false);
      for (char c : set) {
         if (c == 'f' || c == 'g') continue;
         bool add = c == (multi ? 'i' : 'h');
         sum.push_back(add);
         if (add) sum.push_back(true);
      }
      auto strip = [&](std::vector<Row> t, bool all) {
         for (auto& row : t)
            for (size_t i = 0; i < row.size(); i++)
               if (!all && i < sum.size() && sum[i]) row[i] = 0;
         return t;
      };
      auto times = [&](const str& what, long j, long k, const std::vector<Row>& x, const std::vector<Row>& y) {
         if (x[j].size() && y[k].size() && fabs(x[j][0] - y[k][0]) > 1e-5 * (1 + fabs(x[j][0]))) o.fail("wrong-time", fmt("%s: stored step %ld is at %g, in the run it was at %g", what.c_str(), j, x[j][0], y[k][0]));
      };
      if (table_out && pre && o.cls.empty()) {
         auto x = strip(f, wc == 1), y = strip(table(ta[od + "/expec_pre.dat"]), wc == 1);
         auto sc = scales(y);
         if ((long) y.size() != steps) o.fail("wrong-number-of-steps", fmt("the table of the run has %zu rows, %ld steps", y.size(), steps));
         for (long j = 0; j <= nf && j * wc < steps && j < (long) x.size() && j * wc < (long) y.size(); j++) {
            compare("before the step", j, j * wc, x[j], y[j * wc], sc, 1, rel);
            times("before the step", j, j * wc, x, y);
         }
         o.probes["rows_compared"] += f.size();
      }
      if (table_out && post && o.cls.empty()) {
         auto x = strip(f, false), y = strip(table(ta[od + "/expec_post.dat"]), false);
         auto sc = scales(y);
         for (long j = 1; j <= nf && j < (long) x.size() && j * wc - 1 < (long) y.size(); j++) {
            compare("after the step", j, j * wc - 1, x[j], y[j * wc - 1], sc, 1, rel);
            times("after the step", j, j * wc - 1, x, y);
         }
         o.probes["rows_compared"] += f.size();
      }
      // the step report shows the population of the transformed wave functions
      if (o.cls.empty() && (pre || (w.get("pre").empty() && readonly))) {
         auto sc = scales(rp);
         size_t cols = rf.empty() ? 0 : rf[0].size();
         for (long j = 0; j <= nf && j * wc < (long) rp.size() && j < (long) rf.size(); j++) {
            Row y = rp[j * wc];
            if (y.size() > cols) y.resize(cols);   // (the propagation may report more)
            std::vector<double> s2 = sc;
            for (auto& s : s2) s = lossy ? s : 1 + s;
            compare("report", j, j * wc, rf[j], y, s2, 2, lossy ? 0.05 : 2e-6);
         }
      }
   } else {
      // the same analysis with a propagation of its own
      Plan q = pb;
      for (auto x : {str("read="), fmt("steps=%ld", mode == "ac" ? nf + 1 : steps), fmt("wcycle=%ld", wc)}) q.ops[0].push_back(x);
      if (mode == "cfunc" || wc == 1) {
         str d = fresh_dir("own");
         copy_tree(in, d);
         xml(d, q);
         auto before = read_tree(d);
         ChildResult c = run(d);
         str t = stdout_text();
         auto own = outputs(read_tree(d), before);
         if (!ok(c)) o.fail("own-propagation-fails", c.how_text() + " " + tail(t));
         else if (!lossy) {
            str df;
            for (auto& f : result) {
               if (f.find("/WF") != str::npos || f.find("/Propagation.") != str::npos) continue;
               if (!own.count(f)) df = f + " is missing";
               else df = diff_numbers(f, own[f], want[f]);
               if (!df.empty()) break;
            }
            if (!df.empty()) o.fail("analysis-differs", df);
            o.probes["own_compared"]++;
         }
      }
   }
   if (!o.cls.empty()) return o;

   // the same history stored in another way, or damaged
   auto same = [&](const str& what, std::map<str, str>& got) {   // (rounding may differ with the alignment of the data)
      for (auto& f : result) {
         auto i = got.find(f);
         if (i == got.end()) o.fail(what, f + " is missing");
         else {
            str df = diff_numbers(f, want[f], i->second);
            if (!df.empty()) o.fail(what, df);
         }
      }
   };
   std::vector<str> members;   // data files of all stored steps, in order
   std::map<long, std::vector<str> > step;
   for (auto& e : ta) {
      if (e.first.compare(0, base.size(), base) || t0.count(e.first)) continue;
      size_t u = e.first.rfind('_'), d = e.first.rfind('.');
      if (u == str::npos || d == str::npos || d < u + 2 || e.first.substr(d) != ".wf") continue;
      step[atol(e.first.c_str() + u + 1)].push_back(e.first);
   }
   long k = p.num("at") % (nf + 1);
   if (k < 0) k = 0;
   long last = mode == "cfunc" ? nf - 1 : mode == "ac" ? nf : nf;   // (the last point of a correlation function is the one before the end)
   auto hit = [&](const str& what, std::map<str, str>& t) {
      ChildResult c;
      str text;
      auto got = analyse("mut", t, c, text);
      o.probes["damaged_" + mut]++;
      if (c.how != ChildResult::EXIT || (c.code >= 77 && c.code <= 83)) o.fail("analysis-crashes", what + " " + c.how_text() + " " + tail(text));
      else if (c.code == 0) o.fail("damaged-series-analysed", what);
      else if (text.find("rror") == str::npos && text.find("failed") == str::npos) o.fail("error-without-message", what + " " + tail(text));
   };
   auto again = [&](const str& cls, std::map<str, str>& t) {
      ChildResult c;
      str text;
      auto got = analyse("mut", t, c, text);
      o.probes["again_" + mut]++;
      if (!ok(c)) o.fail(cls, c.how_text() + " " + tail(text));
      else same(cls, got);
   };
   auto rerun = [&](const Plan& q) {   // another propagation of the same kind
      str d = fresh_dir("propa2");
      str i2 = make_inputs(q, "in2");
      copy_tree(i2, d);
      ChildResult c = run(d);
      if (!ok(c)) o.fail("propagation-fails", c.how_text() + " " + tail(stdout_text()));
      return read_tree(d);
   };
   std::map<str, str> t = ta;
   if (mut == "format" && !lossy) {
      Plan q = pa;
      q.set("stream", (p.num("stream") + 1 + p.num("at") % 2) % 3);
      t = rerun(q);
      if (o.cls.empty()) again("format-changes-result", t);
   } else if (mut == "wc1" && wc > 1) {
      Plan q = pa;
      q.ops[0].push_back("wcycle=1");
      t = rerun(q);
      for (auto& s : step)
         for (auto& f : s.second) {
            size_t u = f.rfind('_');
            str g = f.substr(0, u) + fmt("_%ld.wf", s.first * wc);
            // (stream files carry their own name)
            str x = ta[f], y = t[g], nx = f.substr(0, f.size() - 3), ny = g.substr(0, g.size() - 3);
            if (nx.size() != ny.size()) continue;
            while (x.find(nx) != str::npos) x.replace(x.find(nx), nx.size(), nx.size(), '*');
            while (y.find(ny) != str::npos) y.replace(y.find(ny), ny.size(), ny.size(), '*');
            if (o.cls.empty() && (!t.count(g) || x != y)) o.fail("write-cycle-changes-stored-step", f + " and " + g + " differ");
         }
      o.probes["again_wc1"]++;
   } else if (mut == "one" && (mode != "ac" || wc == 1)) {   // both programs in one input file
      Plan q = p;
      if (mode != "filter") q.ops[1].push_back("read=" + od);
      if (mode == "cfunc") q.ops[1].push_back("pre=0");
      str d = fresh_dir("one");
      str i2 = make_inputs(q, "in2");
      copy_tree(i2, d);
      ChildResult c = run(d);
      auto got = read_tree(d);
      o.probes["again_one"]++;
      if (!ok(c)) o.fail("one-input-differs", c.how_text() + " " + tail(stdout_text()));
      else same("one-input-differs", got);
   } else if (mut == "extra") {
      for (auto& f : step[0]) {
         size_t u = f.rfind('_');
         for (long i = nf + 1; i < nf + 3; i++) t[f.substr(0, u) + fmt("_%ld.wf", i)] = ta[f];
      }
      again("undescribed-steps-change-result", t);
   } else if (mut == "unzip" && lossy) {
      str d = fresh_dir("unz");
      copy_tree(da, d);
      ChildResult c = run_child(d, co, [&]() { return run_qdz({"-s", "-d", base}); });
      o.add(c);
      if (!ok(c)) o.fail("decompression-fails", c.how_text());
      t = read_tree(d);
      if (o.cls.empty()) again("decompressed-series-differs", t);
   } else if (mut == "missing" && k <= last) {
      auto& v = step[k];
      if (!v.empty()) {
         str f = v[p.num("len") % v.size()];
         t.erase(f);
         hit(f + " removed", t);
      }
   } else if (mut == "cut" && k <= last) {
      auto& v = step[k];
      if (!v.empty()) {
         str f = v[p.num("len") % v.size()];
         if (t[f].size() > 1) {
            t[f].resize(t[f].size() * (p.num("at") % 3 ? p.num("len") % 1000 / 1000. : 1 - 1e-9) - (p.num("at") % 3 ? 0 : p.num("len") % 2));
            hit(f + fmt(" cut to %zu of %zu bytes", t[f].size(), ta[f].size()), t);
         }
      }
   } else if (mut == "more" && mode == "filter") {   // the description claims steps that are not there
      str& m = t[od + "/Propagation.meta"];
      size_t q = m.find("Nt"), e = m.find('\n', q);
      if (q == str::npos || e == str::npos) return o;
      m = m.substr(0, q) + fmt("Nt = %ld", steps + wc * (1 + p.num("len") % 3)) + m.substr(e);
      hit("more steps described than stored", t);
   } else if (mut == "nometa") {
      t.erase(od + "/Propagation.meta");
      hit("Propagation.meta removed", t);
   }
   if (p.faults.empty() || !o.cls.empty()) return o;

   std::vector<Fault> fp, fa;
   for (auto f : p.faults) {
      bool prop = f.op == 0;
      f.op = 0;
      (prop ? fp : fa).push_back(f);
   }
   t = ta;
   if (!fp.empty()) {   // the propagation is killed, what it left is analysed
      str d = fresh_dir("killed");
      copy_tree(in, d);
      xml(d, pa);
      co.faults = fp;
      ChildResult c = run(d);
      co.faults.clear();
      o.nontrivial = c.fault_any > 0;
      o.state = o.state * 31 + c.log_hash;
      t = read_tree(d);
      ChildResult g;
      str text;
      if (verbose) o.log += c.log;
      bool described = t.count(od + "/Propagation.meta") > 0;
      auto got = analyse("part", t, g, text);
      if (g.how != ChildResult::EXIT || (g.code >= 77 && g.code <= 83)) o.fail("analysis-crashes", g.how_text() + " " + tail(text));
      else if (!described) {
         o.probes["killed_undescribed"]++;
         if (g.code == 0) o.fail("undescribed-series-analysed", "");
      } else {
         o.probes["killed_described"]++;
         long n = 0;
         for (auto& l : split(t[od + "/Propagation.meta"], '\n'))
            if (l.compare(0, 2, "Nt") == 0) n = atol(l.substr(l.find('=') + 1).c_str()) / wc;
         if (g.code) {
            if (mode == "filter") o.fail("complete-steps-not-analysed", tail(text));
         } else if (mode == "filter" && table_out) {
            auto x = split(want[tab], '\n'), y = split(got[tab], '\n');
            while (!y.empty() && y.back().empty()) y.pop_back();
            if ((long) y.size() != n + 2) o.fail("wrong-number-of-steps", fmt("%zu lines for %ld described cycles", y.size(), n));
            for (size_t i = 0; i < y.size() && i < x.size(); i++)
               if (x[i] != y[i]) o.fail("partial-analysis-differs", x[i] + " / " + y[i]);
         }
      }
   }
   if (!fa.empty() && o.cls.empty()) {
      co.faults = fa;
      str d = fresh_dir("flt");
      for (auto x : {od, ad, str("base"), str("o0"), str("o1")}) mkdir((d + "/" + x).c_str(), 0700);
      for (auto& e : t)
         if (e.first != "in.xml" && e.first != "wisdom") write_file(d + "/" + e.first, e.second);
      co.faults.clear();
      xml(d, pb);
      auto before = read_tree(d);
      bool shrt = false, cut = false;   // (the description is a text: if it silently ends within its last number, nobody can tell)
      for (auto& f : fa) shrt = shrt || f.kind == "short";
      for (auto& f : fa)
         if (f.kind != "eof" || (!p.num("config") && !(shrt && mode != "filter"))) {   // (an empty configuration file is a valid one)
            co.faults.push_back(f);
            cut = cut || (shrt && f.kind == "eof");
         }
      ChildResult c = run(d);
      co.faults.clear();
      str text = stdout_text();
      auto got = outputs(read_tree(d), before);
      o.nontrivial = c.fault_any > 0;
      o.state = o.state * 31 + c.log_hash;
      if (verbose) o.log += c.log + text;
      if (c.how != ChildResult::EXIT || (c.code >= 77 && c.code <= 83)) o.fail("analysis-crashes", c.how_text() + " " + tail(text));
      else if (c.code) {
         o.probes["error_exit"]++;
         if (text.find("rror") == str::npos && text.find("failed") == str::npos) o.fail("error-without-message", tail(text));
      } else {
         o.probes[c.fault_any ? "success_despite_fault" : "fault_not_reached"]++;
         if (cut && table_out && got.count(tab) && want.count(tab)) got[tab] = undo_cut_dt(t[od + "/Propagation.meta"], want[tab], got[tab]);
         if (fp.empty()) same("fault-changes-result", got);
      }
   }
   return o;
}
static RegProp reg({"C13", gen, exec, faults, 3, 8, 4000, 40000});
