#include "progs.h"
#include <math.h>
#include <string.h>

#include "tools/Collector.h"
using namespace QDLIB;
int qdng_main(int argc, char** argv);
int qdz_main(int argc, char** argv);
namespace sim {

Words::Words(const std::vector<str>& w)
{
   for (auto& x : w) {
      size_t e = x.find('=');
      if (e != str::npos) m[x.substr(0, e)] = x.substr(e + 1);
   }
}
str Words::get(const str& k, const str& d) const { return m.count(k) ? m.find(k)->second : d; }
long Words::num(const str& k, long d, long lo, long hi) const
{
   long v = m.count(k) ? atol(m.find(k)->second.c_str()) : d;
   return std::max(lo, std::min(hi, v));
}

// ------------------------------------------------------------------ generation
static const char* systems[] = {"grid", "grid2", "level", "multi", "gdip", "mdip"};
static str sys_of(const Plan& p)
{
   str s = p.get("sys", "grid");
   for (auto x : systems)
      if (s == x) return s;
   return "grid";
}
static long npoints(const Plan& p) { return std::max(4l, std::min(64l, p.num("n", 8))); }
void rand_system(Rng& r, int tier, Plan& p)
{
   int k = r.below(16);
   p.set("sys", k < 6 ? "grid" : k < 8 ? "grid2" : k < 10 ? "level" : k < 13 ? "multi" : k < 15 ? "gdip" : "mdip");
   p.set("n", r.chance(70) ? 8 : r.range(4, tier ? 40 : 20));
   p.set("vals", r.below(1000));
   p.set("dt", r.range(0, 3));
   p.set("zip", r.chance(75) ? 0 : r.range(1, 2));
   p.set("stream", r.chance(70) ? 0 : r.range(1, 2));
   p.set("gdir", r.chance(15) ? 1 : 0);
   p.set("config", r.chance(15) ? 1 : 0);
   p.set("simple", r.chance(20) ? 1 : 0);
}
static double dt_of(const Plan& p)
{
   static const double d[] = {0.125, 0.25, 0.5, 1};
   return d[std::max(0l, std::min(3l, p.num("dt", 1)))];
}
std::vector<str> rand_node(Rng& r, int tier, const Plan& p, char kind, const str& dir)
{
   str sys = sys_of(p);
   std::vector<str> w;
   auto kv = [&](const str& k, long v) { w.push_back(k + "=" + std::to_string(v)); };
   auto ks = [&](const str& k, const str& v) { w.push_back(k + "=" + v); };
   bool timedep = sys == "gdip" || sys == "mdip";
   std::vector<str> us;
   if (sys == "grid" || sys == "grid2") us = {"Cheby", "Cheby", "SIL", "GSPO", "RK4", "Arnoldi"};
   else if (sys == "level") us = {"Cheby", "SIL", "RK4", "Arnoldi", "GSPO"};
   else if (sys == "multi") us = {"Cheby", "SIL", "RK4", "Arnoldi"};
   else if (sys == "mdip") us = {"Cheby", "SIL", "GSPO"};
   else us = {"Cheby", "SIL", "RK4", "GSPO"};
   int big = tier ? 24 : 10;
   switch (kind) {
      case 'p':
         w.push_back("propa");
         ks("U", r.pick(us));
         kv("steps", r.range(1, big));
         kv("wcycle", r.chance(50) ? 1 : r.range(1, 5));
         ks("dir", dir);
         if (r.chance(15)) ks("fname", "Psi");
         if (r.chance(40)) kv("nfile", 1);
         if (r.chance(30)) kv("spectrum", 1);
         if (r.chance(20)) kv("proj0", 1);
         if (r.chance(35)) ks("pre", str(1, "abcdefghi"[r.below(9)]) + (r.chance(30) ? str(1, "abcdefghi"[r.below(9)]) : ""));
         if (r.chance(35)) ks("post", str(1, "abcdefghi"[r.below(9)]) + (r.chance(50) ? str(1, "abcdefghi"[r.below(9)]) : ""));
         if (r.chance(15)) ks("init", str(1, "abcdefghi"[r.below(9)]));
         if (r.chance(20)) ks("wf", r.chance(50) ? "lc" : "phase");
         break;
      case 'b':   // a free particle, perhaps on another grid
         w.push_back("free");
         us = {"Cheby", "SIL", "RK4", "Arnoldi"};
         ks("U", r.pick(us));
         kv("steps", r.range(1, big));
         kv("wcycle", r.chance(50) ? 1 : r.range(1, 3));
         kv("big", r.range(0, 2));
         if (r.chance(50)) ks("post", r.chance(50) ? str(1, "acefk"[r.below(5)]) : str(1, "ace"[r.below(3)]) + "acefk"[r.below(5)]);
         if (r.chance(20)) ks("pre", str(1, "acfk"[r.below(4)]));
         ks("dir", dir);
         break;
      case 'e':
         w.push_back("imag");
         us = {"Cheby", "SIL", "Arnoldi"};
         if (sys == "grid") us.push_back("GSPO");
         ks("U", r.pick(us));
         kv("steps", r.range(2, big + 5));
         kv("Nef", r.range(1, 4));
         ks("dir", dir);
         kv("diag", r.below(2));
         kv("conv", r.range(5, 9));   // (one loose step would leave nothing of the initial guess for the next function)
         if (r.chance(20)) ks("fname", "eig");
         break;
      case 'a':
         w.push_back("ac");
         ks("U", r.pick(us));
         kv("steps", r.range(8, tier ? 40 : 24));
         ks("dir", dir);
         kv("diag", r.chance(25));
         kv("tol", r.range(0, 2));
         kv("win", r.below(2));
         break;
      case 'l':
         w.push_back("lanczos");
         ks("U", "Arnoldi");
         kv("order", r.range(3, 7));
         ks("dir", dir);
         kv("diag", r.below(2));
         break;
      case 'c':
         w.push_back("cfunc");
         ks("U", r.pick(us));
         kv("steps", r.range(2, w.back() == "U=Arnoldi" ? 6 : big));   // a diverging Arnoldi recursion costs seconds per step
         kv("wcycle", r.chance(60) ? 1 : r.range(1, 3));
         ks("dir", dir);
         ks("shape", r.chance(50) ? "1" : r.chance(50) ? "1b" : r.chance(50) ? "2" : "2b");
         kv("pre", r.chance(40));
         if (r.chance(30)) kv("stepsint", r.range(1, 4));
         if (r.chance(25)) ks("write", dir + "w");
         break;
      case 'o':
         w.push_back("oct");
         ks("U", r.pick(us));
         kv("steps", r.range(3, tier ? 16 : 8));
         ks("dir", dir);
         ks("method", r.chance(30) ? "krotov" : r.chance(50) ? "rabitz" : r.chance(60) ? "rabitzfb" : "freq");
         kv("iter", r.range(1, 3));
         kv("writel", r.below(2));
         kv("writey", r.below(2));
         kv("op", r.chance(30));
         kv("phase", r.chance(25));
         kv("nt", r.chance(25) ? 2 : 1);
         break;
   }
   if (w.size() > 1 && (kind == 'p' || kind == 'e' || kind == 'a' || kind == 'c' || kind == 'o')) kv("order", r.range(3, 6));
   (void) timedep;
   return w;
}

void rand_program(Rng& r, int tier, Plan& p, const char* kinds)
{
   rand_system(r, tier, p);
   char c = kinds[r.below(strlen(kinds))];
   bool las = p.get("sys") == "gdip" || p.get("sys") == "mdip";
   if (c == 'o' && !las) p.set("sys", r.chance(70) ? "gdip" : "mdip");
   if (c == 'l' && las) p.set("sys", "grid");
   p.ops.push_back(rand_node(r, tier, p, c, "o0"));
   str d0 = p.num("gdir") ? "base" : "o0";
   auto follow = [&](char kind, const str& dir, const std::vector<str>& kv) {   // a node that uses the files of the first one
      std::vector<str> w = rand_node(r, tier, p, kind, dir);
      w.insert(w.end(), kv.begin(), kv.end());   // (later words win)
      p.ops.push_back(w);
   };
   Words first(p.ops[0]);
   if (c == 'p' && r.chance(25)) p.op({"filter", "path=o0", "dir=o1", str("def=") + "abcdefghi"[r.below(9)] + "abcdefghi"[r.below(9)]});
   else if (c == 'p' && r.chance(20) && first.num("wcycle", 1, 1, 400) <= first.num("steps", 1, 1, 400) && !las) follow('c', "o1", {"read=" + d0, "pre=0"});
   else if (c == 'p' && r.chance(20) && first.num("steps", 1, 1, 400) / first.num("wcycle", 1, 1, 400) >= 3 && !las) follow('a', "o1", {"read=" + d0, "wf="});
   else if (c == 'p' && r.chance(15)) {   // continued by a second propagation
      p.ops.push_back(p.ops[0]);
      long st = first.num("steps", 1, 1, 400);
      p.ops[1].push_back(fmt("start=%ld", st / first.num("wcycle", 1, 1, 400) + 1));
      p.ops[1].push_back(fmt("steps=%ld", st + r.range(1, 6)));
      p.ops[1].push_back("nfile=0");
      p.ops[1].push_back("spectrum=0");
   } else if (c == 'c' && first.num("wcycle", 1, 1, 400) <= first.num("steps", 1, 1, 400) && r.chance(30)) {
      p.ops[0].push_back("write=cw");
      follow('c', "o1", {"read=cw", "pre=0"});
   } else if (c == 'e' && r.chance(25)) {
      long nef = first.num("Nef", 1, 1, 8);
      p.ops.push_back(p.ops[0]);
      p.ops[1].push_back(fmt("start=%ld", nef));
      p.ops[1].push_back(fmt("Nef=%ld", nef + 1));
   } else if (r.chance(10) && !las && c != 'l') {
      int pick = r.below(3);
      p.ops.push_back(rand_node(r, tier, p, "pea"[pick], "o2"));
   }
}

// ------------------------------------------------------------------ input text
static bool shared_ops;   // operators are defined once, in an opdefs section, and referenced
static str opnode(const str& sys, const str& tag, char kind, const str& attr = "")
{
   if (shared_ops && (kind == 'a' || kind == 'b' || ((kind == 'c' || kind == 'e' || kind == 'k') && sys != "multi"))) return "<" + tag + attr + " ref=\"F" + kind + "\"/>";
   // operators used by filters and correlation functions
   str body;
   bool grid = sys == "grid" || sys == "grid2" || sys == "gdip";
   bool multi = sys == "multi";
   str g = grid || multi ? "name=\"GridPosition\" dim=\"0\"" : "name=\"HermitianMatrix\" file=\"mat1\"";
   switch (kind) {
      case 'a': body = g; break;
      case 'b': body = grid ? str("name=\"GridPotential\" file=\"pot1\"") : g; break;
      case 'c': return "<" + tag + attr + " name=\"Sum\"><A name=\"Scalar\" value=\"0.75\"/></" + tag + ">";
      case 'd': body = str("name=\"Projection\" files=\"ef\" num=\"2\""); break;
      case 'e': body = grid ? str("name=\"GridMomentum\"") : g; break;
      case 'k': body = grid ? str("name=\"GridKick\" k=\"1.5\"") : g; break;
      default: body = g;
   }
   if (multi && kind != 'c' && kind != 'd')
      return "<" + tag + attr + " name=\"Multistate\" unity=\"false\" states=\"2\"><m0.0 " + body + "/></" + tag + ">";
   return "<" + tag + attr + " " + body + "/>";
}
static str filters(const Plan& p, const str& which, const str& tag, const Words& w)
{
   if (which.empty()) return "";
   str sys = sys_of(p), s = "<" + tag;
   if (!w.get("renorm").empty()) s += str(" renorm=\"") + (w.num("renorm", 0, 0, 1) ? "true" : "false") + "\"";
   s += ">";
   for (char c : which) {
      switch (c) {
         case 'f': s += "<normalize/>"; break;
         case 'g': s += opnode(sys, "apply", 'c'); break;
         case 'k': s += opnode(sys, "apply", 'k'); break;
         case 'h': s += sys == "multi" ? str("<rho ms=\"0,1\" value=\"abs\"/>") : opnode(sys, "expeconly", 'a', " value=\"complex\" int=\"true\""); break;
         case 'i': s += sys == "multi" ? str("<rho ms=\"1,0\" value=\"complex\" int=\"true\"/>") : opnode(sys, "expeconly", 'b', " value=\"abs\""); break;
         case 'c': s += opnode(sys, "expec", 'c'); break;
         default: s += opnode(sys, "expeconly", c);
      }
   }
   return s + "</" + tag + ">";
}
static str mass(const Plan& p) { return sys_of(p) == "grid2" ? "mass=\"900,1500\"" : "mass=\"900\""; }
static str hamilton(const Plan& p)
{
   if (shared_ops) return "<hamiltonian ref=\"H\"/>";
   str s = sys_of(p), l = " laser=\"las0\" label=\"OptLaser\"";
   if (s == "level") return "<hamiltonian name=\"Sum\"><A name=\"HermitianMatrix\" file=\"mat0\"/></hamiltonian>";
   if (s == "mdip") return "<hamiltonian name=\"Sum\"><A name=\"HermitianMatrix\" file=\"mat0\"/><B name=\"MatDipole\" file=\"mat1\" key=\"dip\"" + l + "/></hamiltonian>";
   if (s == "gdip") return "<hamiltonian name=\"Sum\"><A name=\"GridNablaSq\" " + mass(p) + "/><B name=\"GridPotential\" file=\"pot0\"/><C name=\"GridDipole\" file=\"dip0\" key=\"dip\"" + l + "/></hamiltonian>";
   if (s == "multi")
      return "<hamiltonian name=\"Multistate\" states=\"2\"><m0.0 name=\"Sum\"><T name=\"GridNablaSq\" " + mass(p) + "/><V name=\"GridPotential\" file=\"pot0\"/></m0.0>"
             "<m1.1 name=\"Sum\"><T name=\"GridNablaSq\" " + mass(p) + "/><V name=\"GridPotential\" file=\"pot1\"/></m1.1><m1.0 name=\"GridPotential\" file=\"pot2\"/></hamiltonian>";
   return str("<hamiltonian name=\"Sum\"><T name=\"GridNablaSq\" " + mass(p) + "/><V name=\"GridPotential\" file=\"pot0\"/></hamiltonian>");
}
static const char* shared_us[] = {"Cheby", "SIL", "Arnoldi", "RK4"};
static str udefs(const Plan& p)   // propagators shared by the programs
{
   str s;
   if (p.num("udefs"))
      for (str u : shared_us) s += "<udef name=\"" + u + "\" key=\"U" + u + "\"" + (u == "SIL" || u == "Arnoldi" ? " order=\"4\"" : "") + "><hamiltonian ref=\"H\"/></udef>";
   return s;
}
static str opdefs(const Plan& p)
{
   str s = sys_of(p), l = " laser=\"las0\" label=\"OptLaser\" key=\"dip\"", t = " name=\"GridNablaSq\" " + mass(p) + " key=\"T\"/>", v = " name=\"GridPotential\" file=\"pot0\" key=\"V\"/>", h;
   bool late = p.num("defs") == 2;   // the parts first, the sum of references to them after it
   str parts = late ? (s == "level" || s == "mdip" ? str("<opdef name=\"HermitianMatrix\" file=\"mat0\" key=\"T\"/>") : "<opdef" + t + "<opdef" + v) : str("");
   if (late) t = v = " ref=\"?\"/>", t[6] = 'T', v[6] = 'V';
   if (s == "level" || s == "mdip") {
      h = late ? str("<A ref=\"T\"/>") : str("<A name=\"HermitianMatrix\" file=\"mat0\" key=\"T\"/>");
      if (s == "mdip") h += "<B name=\"MatDipole\" file=\"mat1\"" + l + "/>";
   } else if (s == "multi")
      return parts + "<opdef name=\"Multistate\" states=\"2\" key=\"H\"><m0.0 name=\"Sum\"><T" + t + "<V" + v + "</m0.0><m1.1 name=\"Sum\"><T ref=\"T\"/><V name=\"GridPotential\" file=\"pot1\"/></m1.1><m1.0 name=\"GridPotential\" file=\"pot2\"/></opdef>" +
             "<opdef name=\"Multistate\" unity=\"false\" states=\"2\" key=\"Fa\"><m0.0 name=\"GridPosition\" dim=\"0\" key=\"X\"/></opdef><opdef name=\"Multistate\" unity=\"false\" states=\"2\" key=\"Fb\"><m0.0 ref=\"X\"/></opdef>" + udefs(p);
   else {
      h = "<T" + t + "<V" + v;
      if (s == "gdip") h += "<C name=\"GridDipole\" file=\"dip0\"" + l + "/>";
   }
   bool so = shared_ops;
   shared_ops = false;
   str r = parts + "<opdef name=\"Sum\" key=\"H\">" + h + "</opdef>" + opnode(s, "opdef", 'a', " key=\"Fa\"") + opnode(s, "opdef", 'b', " key=\"Fb\"") +
           opnode(s, "opdef", 'c', " key=\"Fc\"") + opnode(s, "opdef", 'e', " key=\"Fe\"") + opnode(s, "opdef", 'k', " key=\"Fk\"");
   shared_ops = so;
   return r + udefs(p);
}
static str propagator(const Plan& p, const Words& w)
{
   str u = w.get("U", "Cheby"), s = sys_of(p);
   str l = " laser=\"las0\"";
   if (u == "GSPO") {
      str b = s == "level" ? "<A name=\"HermitianMatrix\" file=\"mat0\"/>" :
              s == "mdip" ? "<A name=\"HermitianMatrix\" file=\"mat0\"/><B name=\"MatDipole\" file=\"mat1\"" + l + "/>" :
              "<A name=\"GridNablaSq\" " + mass(p) + "/><B name=\"GridPotential\" file=\"pot0\"/>" + (s == "gdip" ? "<C name=\"GridDipole\" file=\"dip0\"" + l + "/>" : str(""));
      if (shared_ops) b = str("<A ref=\"T\"/>") + (s == "level" ? "" : s == "mdip" ? "<B ref=\"dip\"/>" : s == "gdip" ? "<B ref=\"V\"/><C ref=\"dip\"/>" : "<B ref=\"V\"/>");
      return "<propagator name=\"GSPO\">" + b + "</propagator>";
   }
   if (shared_ops && p.num("udefs") && w.num("order", 4, 3, 12) == 4)
      for (str x : shared_us)
         if (x == u) return "<propagator ref=\"U" + u + "\"/>";
   str a;
   if (u == "SIL" || u == "Arnoldi") a = fmt(" order=\"%ld\"", w.num("order", 4, 3, 12));
   return "<propagator name=\"" + u + "\"" + a + ">" + hamilton(p) + "</propagator>";
}
static str wfnode(const str& tag, const str& file, const str& variant)
{
   if (variant == "states") {   // a member of a series of bare numbers: one file for each state
      size_t u = file.rfind('_');
      str a = file.substr(0, u), b = u == str::npos ? str("") : file.substr(u);
      return "<" + tag + " name=\"Multistate\" states=\"2\"><wf0 file=\"" + a + "-0" + b + "\"/><wf1 file=\"" + a + "-1" + b + "\"/></" + tag + ">";
   }
   if (variant == "plain") return "<" + tag + " file=\"" + file + "\"/>";
   if (variant == "lc") return "<" + tag + " name=\"LC\" normalize=\"true\"><wf0 file=\"f0\"/><wf1 file=\"f1\"/></" + tag + ">";
   return "<" + tag + " file=\"" + file + "\" normalize=\"true\"" + (variant == "phase" ? " phase=\"0.25\"" : "") + "/>";
}
static str node_xml(const Plan& p, const std::vector<str>& op)
{
   Words w(op);
   str k = op[0], d = w.get("dir"), a = fmt(" dt=\"%g\"", dt_of(p) * w.num("dtx", 2, 1, 4) / 2), sys = sys_of(p);
   str dir = d.empty() || d == "-" || p.num("gdir") ? "" : " dir=\"" + d + "\"";
   long steps = w.num("steps", 4, 1, 400);
   auto flag = [&](const str& n) { return w.num(n, 0, 0, 1) != 0; };
   if (k == "propa") {
      str s = "<propa" + a + fmt(" steps=\"%ld\" wcycle=\"%ld\"", steps, w.num("wcycle", 1, 1, 400)) + dir;
      if (!w.get("fname").empty()) s += " fname=\"" + w.get("fname") + "\"";
      if (flag("nfile")) s += " nfile=\"norm.dat\"";
      if (flag("spectrum")) s += " spectrum=\"spectrum.dat\"";
      if (flag("proj0")) s += " proj0=\"true\"";
      if (w.num("start", 0, 0, 400)) s += fmt(" start=\"%ld\"", w.num("start", 0, 0, 400));
      return s + ">" + propagator(p, w) + wfnode("wf", w.get("file", "f0"), w.get("wf")) + filters(p, w.get("init"), "filterinit", w) +
             filters(p, w.get("pre"), "filterpre", w) + filters(p, w.get("post"), "filterpost", w) + "</propa>";
   }
   if (k == "free") {
      long big = w.num("big", 0, sys == "multi", 2);
      str T = shared_ops ? str("<A ref=\"T\"/>") : "<A name=\"GridNablaSq\" " + mass(p) + "/>", u = w.get("U", "Cheby");
      return "<propa" + a + fmt(" steps=\"%ld\" wcycle=\"%ld\"", steps, w.num("wcycle", 1, 1, 400)) + dir + "><propagator name=\"" + u + "\"" +
             (u == "SIL" || u == "Arnoldi" ? " order=\"4\"" : "") + "><hamiltonian name=\"Sum\">" + T + "</hamiltonian></propagator>" + wfnode("wf", big ? fmt("h%ld", big) : str("f0"), "") +
             (sys == "multi" ? "" : filters(p, w.get("pre"), "filterpre", w) + filters(p, w.get("post"), "filterpost", w)) + "</propa>";
   }
   if (k == "filter") {
      str s = "<filter path=\"" + (p.num("gdir") ? str("base") : w.get("path", "o0")) + "\"" + dir;
      if (!w.get("fname").empty()) s += " fname=\"" + w.get("fname") + "\"";
      return s + ">" + filters(p, w.get("def", "a"), "filterdef", w) + "</filter>";
   }
   if (k == "imag" || k == "ac" || k == "lanczos") {
      str s = "<eigen method=\"" + k + "\"" + a + fmt(" steps=\"%ld\"", std::max(k == "ac" ? 4l : 1l, steps)) + dir;
      s += str(" diag=\"") + (flag("diag") ? "true" : "false") + "\"";
      if (k == "imag") s += fmt(" Nef=\"%ld\" conv=\"1e-%ld\"", w.num("Nef", 2, 1, 8), w.num("conv", 3, 0, 12));
      if (k == "imag" && w.num("start", 0, 0, 8)) s += fmt(" start=\"%ld\"", w.num("start", 0, 0, 8));
      if (k == "ac") s += fmt(" tol=\"%ld\" win=\"%s\"", w.num("tol", 1, 0, 9), flag("win") ? "true" : "false");
      if (k == "ac" && !w.get("read").empty()) s += " read=\"" + w.get("read") + "\"";
      if (!w.get("fname").empty()) s += " fname=\"" + w.get("fname") + "\"";
      return s + ">" + propagator(p, w) + wfnode("wf", "f0", w.get("wf")) + "</eigen>";
   }
   if (k == "cfunc") {
      str s = "<cfunc" + a + fmt(" steps=\"%ld\" wcycle=\"%ld\"", steps, w.num("wcycle", 1, 1, 400)) + dir;
      if (w.num("stepsint", 0, 0, 400)) s += fmt(" stepsint=\"%ld\"", w.num("stepsint", 0, 0, 400));
      if (!w.get("read").empty()) s += " read=\"" + w.get("read") + "\"";
      if (!w.get("write").empty()) s += " write=\"" + w.get("write") + "\"";
      s += ">" + propagator(p, w) + wfnode("wf", "f0", "");
      str sh = w.get("shape", "1"), pre = flag("pre") ? opnode(sys, "P", 'a') : str(""), sig = opnode(sys, "S", 'a'), mid = opnode(sys, "M", 'b');
      if (sh == "1") s += "<ket>" + pre + "<U/>" + sig + "</ket>";
      else if (sh == "1b") s += "<bra>" + pre + "<U/></bra><ket>" + pre + "<U/>" + sig + "</ket>";
      else if (sh == "2") s += "<ket>" + pre + "<U/>" + mid + "<U/>" + sig + "</ket>";
      else s += "<bra>" + pre + "<U/></bra><ket>" + pre + "<U/>" + mid + "<U/>" + sig + "</ket>";
      return s + "</cfunc>";
   }
   if (k == "oct") {
      str m = w.get("method", "krotov");
      bool op = flag("op");
      long nt = w.num("nt", 1, 1, 2);
      str s = "<oct" + a + fmt(" steps=\"%ld\"", std::max(2l, steps)) + dir + " alpha=\"4\" shape=\"shape0\" method=\"" + m + "\"" + fmt(" iterations=\"%ld\" conv=\"1e-12\" ntargets=\"%ld\"", w.num("iter", 1, 1, 9), nt);
      if (m == "freq") s += " freql=\"0.01\" freqh=\"1.5\"";
      if (flag("writel")) s += " writel=\"true\"";
      if (flag("writey")) s += " writeyield=\"true\"";
      if (flag("phase")) s += " phase=\"true\"";
      if (op) s += " ttype=\"operator\"";
      s += ">" + propagator(p, w);
      for (long t = 0; t < nt; t++) {
         s += wfnode(fmt("wfi%ld", t), fmt("ef_%ld", t), "");
         if (op) s += opnode(sys, fmt("target%ld", t), 'd');
         else s += wfnode(fmt("wft%ld", t), fmt("ef_%ld", 1 - t), "");
      }
      return s + "</oct>";
   }
   return "";
}
static std::vector<std::pair<str, str> > globals(const Plan& p)
{
   std::vector<std::pair<str, str> > g;
   if (p.num("zip")) {
      g.push_back(std::make_pair("compress", "true"));
      g.push_back(std::make_pair("compmethod", p.num("zip") == 2 ? "BZIP" : "ZLIB"));
   }
   if (p.num("stream")) g.push_back(std::make_pair("wf_format", p.num("stream") == 2 ? "binary" : "stream"));
   if (p.num("gdir")) g.push_back(std::make_pair("dir", "base"));
   static const char* names[] = {"maxbuf", "MaxBufferSize", "tmpdir", "tmpdir", "maxmem", "MaxMem", "wisdom", "wisdom", "wisdomsave", "wisdomsave"};
   for (int i = 0; i < 10; i += 2)
      if (!p.get(names[i]).empty()) g.push_back(std::make_pair(names[i + 1], p.get(names[i])));
   return g;
}
str prog_xml(const Plan& p)
{
   str s = "<qdng";
   if (!p.num("config"))
      for (auto& g : globals(p)) s += " " + g.first + "=\"" + g.second + "\"";
   s += ">\n";
   shared_ops = p.num("defs") > 0;
   if (shared_ops && !p.num("nodefs")) s += "<opdefs>" + opdefs(p) + "</opdefs>\n";
   for (auto& op : p.ops)
      if (!op.empty()) s += node_xml(p, op) + "\n";
   shared_ops = false;
   return s + "</qdng>\n";
}
// the same text in the short input syntax
static str simple_text(const str& xml)
{
   str o;
   size_t i = 0;
   while ((i = xml.find('<', i)) != str::npos) {
      size_t e = xml.find('>', i);
      if (e == str::npos) break;
      str t = xml.substr(i + 1, e - i - 1);
      i = e + 1;
      if (t[0] == '/') {
         o += "}\n";
         continue;
      }
      bool closed = t[t.size() - 1] == '/';
      if (closed) t.erase(t.size() - 1);
      size_t k = t.find(' ');
      o += t.substr(0, k) + " {\n";
      while (k != str::npos) {
         size_t q = t.find('=', k), b = t.find('"', k), f = b == str::npos ? b : t.find('"', b + 1);
         if (q == str::npos || f == str::npos) break;
         while (t[k] == ' ') k++;
         o += " " + t.substr(k, q - k) + " = " + t.substr(b, f - b + 1) + "\n";
         k = f + 1;
      }
      if (closed) o += "}\n";
   }
   return o;
}
// ------------------------------------------------------------------ stored inputs
static uint64_t perturb;   // seed of a change of the last digits, to see how much a program amplifies rounding errors
static void shake(WaveFunction* w, Rng& r)
{
   if (WFMultistate* m = dynamic_cast<WFMultistate*>(w)) {
      for (int i = 0; i < m->States(); i++)
         if (m->State(i)) shake(m->State(i), r);
      return;
   }
   for (int i = 0; i < w->size(); i++) (*w)[i] = (*w)[i] * (1 + 2e-14 * (r.unit() - 0.5));
}
static void put_wf(const str& name, const str& spec, int seq = -1)
{
   WaveFunction* w = make_wf(spec);
   w->Normalize();
   if (perturb) {
      Rng r(perturb);
      shake(w, r);
   }
   {
      FileWF f;
      f.Compress(false);
      f.Suffix(".wf");
      f.Name(name);
      if (seq >= 0) {
         f.ActivateSequence();
         f.Counter(seq);
      }
      f << w;
   }
   DELETE_WF(w);
}
static void put_obj(const str& name, AnyObj& o, bool raw)
{
   if (o.pot && raw) {   // as external tools write them: a text description and the bare numbers
      ParamContainer& q = o.pot->Params();
      str m = "# potential\nCLASS = GridPotential\n" + fmt("dims = %d\n", o.pot->Dim());
      for (int i = 0; i < o.pot->Dim(); i++) m += fmt("N%d = %d\nxmin%d = %.6f\nxmax%d=%.6f\n", i, o.pot->DimSize(i), i, o.pot->Xmin(i), i, o.pot->Xmax(i));
      (void) q;
      write_file(name + ".meta", m);
      write_file(name + ".op", str((char*) &(*o.pot)[0], o.pot->size() * sizeof(double)));
   } else if (o.pot) {
      FileSingle<Serializiable> f;
      f.Suffix(".op");
      f.Compression(FileSingle<Serializiable>::UNCOMPRESSED);
      f.Name(name);
      f.WriteSingleFileToStream(dynamic_cast<Serializiable*>(o.pot));
   } else if (o.mat) {
      auto& f = *o.mat->File();
      f.Suffix(".op");
      f.Name(name);
      f << o.mat;
   } else {
      Laser::FileLaser& f = o.laser->File();
      f.Suffix(".op");
      f.Name(name);
      f << o.laser;
   }
}
static str grid_part(const Plan& p)
{
   long n = npoints(p);
   return sys_of(p) == "grid2" ? fmt(":%d:%ld", 4, std::max(3l, n / 3)) : fmt(":%ld", n);
}
str input_spec(const Plan& p, const str& name)
{
   str sys = sys_of(p), gr = grid_part(p);
   long n = npoints(p), v = std::max(0l, p.num("vals", 1)), i = name.back() - '0';
   if (name.compare(0, 3, "pot") == 0) return "pot" + gr + fmt("/u/%ld", 8 * (v * 16 + 5 + i));
   if (name.compare(0, 3, "mat") == 0) return fmt("mat:%ld/u/%ld", std::min(n, 12l), v * 16 + 9 + i);
   if (name[0] == 'e') i += 2;
   str s = fmt("/u/%ld", 8 * (v * 16 + i));
   return sys == "level" || sys == "mdip" ? fmt("level:%ld", std::min(n, 12l)) + s : sys == "multi" ? "multi:2" + gr + s : "grid" + gr + s;
}
void write_inputs(const Plan& p)
{
   str sys = sys_of(p);
   perturb = std::max(0l, p.num("perturb"));
   long n = npoints(p), v = p.num("vals", 1), steps = 4;
   if (v < 0) v = 0;
   for (auto& op : p.ops) steps = std::max(steps, Words(op).num("steps", 4, 1, 400) + 2 + Words(op).num("start", 0, 0, 400));
   auto wf = [&](long i) { return i < 2 ? input_spec(p, fmt("f%ld", i)) : input_spec(p, fmt("ef_%ld", i - 2)); };
   str gr = grid_part(p);
   put_wf("f0", wf(0));
   put_wf("f1", wf(1));
   for (auto& op : p.ops)
      if (!op.empty() && op[0] == "free" && Words(op).num("big", 0, sys == "multi", 2)) {
         long b = Words(op).num("big", 0, sys == "multi", 2), m = b == 1 ? 2 * n : n / 2 + 2;
         put_wf(fmt("h%ld", b), (sys == "grid2" ? fmt("grid:%ld:4", m) : fmt("grid:%ld", m)) + fmt("/u/%ld", 8 * (v * 16 + 7)));
      }
   for (int i = 0; i < 3; i++) {   // a series whose members can also be loaded one by one
      put_wf("ef", wf(2 + i), i);
   }
   for (int i = 0; i < 3; i++) {
      AnyObj o = make_obj(input_spec(p, fmt("pot%d", i)));
      put_obj(fmt("pot%d", i), o, (v + i) % 2);
   }
   AnyObj d = make_obj("pot" + gr + "/g/8");
   for (int i = 0; i < d.pot->size(); i++) (*d.pot)[i] = 0.2 + 0.1 * i;
   put_obj("dip0", d, true);
   for (int i = 0; i < 2; i++) {
      AnyObj m = make_obj(input_spec(p, fmt("mat%d", i)));
      put_obj(fmt("mat%d", i), m, false);
   }
   AnyObj l = make_obj(fmt("laser:%ld/u/1", steps));
   l.laser->Dt(dt_of(p));
   for (int i = 0; i < l.laser->size(); i++) (*l.laser)[i] = 0.05 * cos(0.7 * i) + 0.06;
   put_obj("las0", l, false);
   for (int i = 0; i < l.laser->size(); i++) (*l.laser)[i] = 0.3 + 0.01 * i;
   put_obj("shape0", l, false);
   write_file("in.xml", p.num("simple") ? simple_text(prog_xml(p)) : prog_xml(p));
   if (p.num("config")) {   // global parameters in the configuration file
      str c;
      for (auto& g : globals(p)) c += g.first + " = " + g.second + "\n";
      write_file(".qdconfig", c);
   }
}
str make_inputs(const Plan& p, const str& name)
{
   str d = fresh_dir(name);
   ChildOpts o;
   ChildResult r = run_child(d, o, [&]() {
      Quiet q;
      write_inputs(p);
      return 0;
   });
   if (r.how != ChildResult::EXIT || r.code) fprintf(stderr, "qdsim: writing the inputs failed: %s\n", r.how_text().c_str());

   return d;
}
static std::vector<char*> argv_of(std::vector<str>& a)
{
   std::vector<char*> v;
   for (auto& s : a) v.push_back(&s[0]);
   v.push_back(NULL);
   return v;
}
int run_qdng(const std::vector<str>& args)
{
   static std::vector<str> a;
   a = {"qdng"};
   a.insert(a.end(), args.begin(), args.end());
   static std::vector<char*> v;
   v = argv_of(a);
   return qdng_main(a.size(), &v[0]);
}
int run_qdz(const std::vector<str>& args)
{
   static std::vector<str> a;
   a = {"qdz"};
   a.insert(a.end(), args.begin(), args.end());
   static std::vector<char*> v;
   v = argv_of(a);
   return qdz_main(a.size(), &v[0]);
}
std::map<str, str> outputs(const std::map<str, str>& now, const std::map<str, str>& in)
{
   std::map<str, str> o;
   for (auto& e : now) {
      if (e.first == "wisdom") continue;
      auto i = in.find(e.first);
      if (i != in.end() && i->second == e.second) continue;
      o.insert(e);
   }
   return o;
}
str stdout_text()
{
   str s;
   read_file(scratch() + "/stdout.txt", s);
   return s;
}
bool meaningless_input(const str& t)
{
   // a stored propagation with fewer steps than its write cycle; a diverging series; the same initial guess for two eigenfunctions
   return t.find("Invalid propagation meta") != str::npos || t.find(" is not a number") != str::npos;
}
str diff_trees(const std::map<str, str>& a, const std::map<str, str>& b)
{
   for (auto& e : a) {
      auto i = b.find(e.first);
      if (i == b.end()) return e.first + " is missing";
      if (i->second != e.second) {
         size_t k = 0;
         while (k < e.second.size() && k < i->second.size() && e.second[k] == i->second[k]) k++;
         return e.first + fmt(" differs at byte %zu (%zu bytes, expected %zu)", k, i->second.size(), e.second.size());
      }
   }
   for (auto& e : b)
      if (!a.count(e.first)) return e.first + " should not exist";
   return "";
}
// compares two files number by number: text tables, or raw doubles at the end of binary files
static bool is_text(const str& s)
{
   for (unsigned char c : s)
      if (c > 126 || (c < 32 && c != '\n' && c != '\t' && c != '\r')) return false;
   return true;
}
static str differs(const str& name, const str& a, const str& b, double rel)
{
   if (a == b) return "";
   if (a.size() != b.size()) {
      if (!is_text(a) || !is_text(b)) return name + fmt(" has %zu bytes, expected %zu", b.size(), a.size());
   }
   bool text = is_text(a) && is_text(b) && a.find_first_of("\t\n") != str::npos;
   std::vector<double> x, y;
   if (text) {
      for (int k = 0; k < 2; k++) {
         str s = k ? b : a;
         for (size_t i = 0; i < s.size(); i++)
            if (s[i] == '(' || s[i] == ')' || s[i] == ',' || (s[i] == 'i' && i && (isdigit(s[i - 1]) || s[i - 1] == '.'))) s[i] = ' ';
         auto& v = k ? y : x;
         for (auto& l : split(s, '\n'))
            for (auto& t : split(l, '\t'))
               for (auto& w : split(t, ' ')) {
                  char* e;
                  double d = strtod(w.c_str(), &e);
                  if (e != w.c_str() && !*e) v.push_back(d);
               }
      }
   } else {
      size_t off = a.size() % 8, first = 0;   // the values end with the file
      while (first < a.size() && a[first] == b[first]) first++;
      for (size_t i = off; i + 8 <= a.size(); i += 8) {
         if (i + 8 <= first) continue;
         double u, v;
         memcpy(&u, &a[i], 8);
         memcpy(&v, &b[i], 8);
         x.push_back(u);
         y.push_back(v);
      }
   }
   if (x.size() != y.size()) return name + fmt(" has %zu numbers, expected %zu", y.size(), x.size());
   double sc = 1e-6;   // (smaller results are sums of rounding errors)
   for (auto d : x)
      if (fabs(d) > sc && fabs(d) < 1e200) sc = fabs(d);
   for (size_t i = 0; i < x.size(); i++)
      if (!(fabs(x[i] - y[i]) <= rel * sc) && x[i] == x[i]) return name + fmt(" number %zu is %.12g, expected %.12g", i, y[i], x[i]);
   return "";
}
str diff_values(const std::map<str, str>& want, const std::map<str, str>& got, const str& wdir, const str& gdir, double rel, bool phase)
{
   std::vector<str> packed;   // compressed wave functions are compared after loading them
   for (auto& e : want) {
      auto i = got.find(e.first);
      if (i == got.end() || e.second == i->second) continue;
      str s = differs(e.first, e.second, i->second, rel);
      if (s.empty()) continue;
      size_t n = e.first.size();
      if (n < 3 || e.first.substr(n - 3) != ".wf") return s;
      packed.push_back(e.first);
   }
   if (packed.empty()) return "";
   ChildResult c = run_child(gdir, ChildOpts(), [&]() {
      for (auto& f : packed) {
         std::vector<double> v[2];
         str what[2];
         for (int k = 0; k < 2; k++) {
            WaveFunction* wf = NULL;
            FileWF file;
            file.Name((k ? gdir : wdir) + "/" + f.substr(0, f.size() - 3));
            file.Suffix(".wf");
            str err = guarded([&]() { file >> &wf; });
            if (!wf) what[k] = "cannot be loaded: " + err;
            else {
               describe_values(wf, v[k]);
               what[k] = fmt("%zu values", v[k].size());
            }
         }
         str s;
         if (phase && v[0].size() == v[1].size()) {   // eigenfunctions: any phase factor will do
            dcomplex ov = 0;
            for (size_t i = 0; i + 1 < v[0].size(); i += 2) ov += dcomplex(v[0][i], v[0][i + 1]) * conj(dcomplex(v[1][i], v[1][i + 1]));
            double m = sqrt((ov * conj(ov)).real());
            if (m > 0)
               for (size_t i = 0; i + 1 < v[0].size(); i += 2) {
                  dcomplex z = dcomplex(v[1][i], v[1][i + 1]) * ov * (1. / m);
                  v[1][i] = z.real();
                  v[1][i + 1] = z.imag();
               }
         }
         double sc = 0;
         for (auto x : v[0]) sc = std::max(sc, fabs(x));
         if (v[0].empty() || what[0] != what[1]) s = what[1] + ", expected: " + what[0];
         for (size_t i = 0; s.empty() && i < v[0].size(); i++)
            if (!(fabs(v[0][i] - v[1][i]) <= rel * sc)) s = fmt("value %zu is %.12g, expected %.12g", i, v[1][i], v[0][i]);
         if (!s.empty()) {
            emit("differs", f + " " + s);
            break;
         }
      }
      return 0;
   });
   if (c.how != ChildResult::EXIT || c.code) return packed[0] + ": comparison " + c.how_text();
   return c.get("differs");
}
}
