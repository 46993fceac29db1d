// C11: temporary files act as private arrays and never outlive or collide with others.
#include "store.h"
#include <dirent.h>
#include <fcntl.h>
#include <memory>
#include <set>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <unistd.h>
#include "qdlib/WFBuffer.h"
#include "tools/FIFO.h"
#include "tools/TmpFile.h"
using namespace QDLIB;
using namespace sim;

static const char* tdirs[] = {"", "tmp", "tmp/", "missing"};
static void gen(Rng& r, int tier, Plan& p)
{
   int ni = r.range(1, 4);
   p.set("inst", ni);
   p.set("tdir", r.chance(5) ? 3 : r.below(3));
   p.set("env", r.chance(30));                 // directory from $TMPDIR
   p.set("same", r.chance(25));                // the entropy source repeats itself
   p.set("other", r.chance(35));               // another process is in the middle of its work
   p.set("samepid", 0);
   p.set("at", r.below(1000));
   p.set("foreign", r.chance(40));
   p.set("fill", r.below(256));
   for (int i = 0; i < 4; i++) p.set(fmt("type%d", i), r.below(3));
   int n = r.range(4, tier ? 80 : 45);
   auto I = [&]() { return std::to_string(r.below(ni)); };
   auto sz = [&](long mx) { return std::to_string(r.chance(10) ? r.below(3) : r.chance(12) ? r.range(500, 3000) : r.range(1, mx)); };
   for (int i = 0; i < n; i++) {
      int k = r.below(40);
      str s = std::to_string(r.below(1000));
      if (k < 5) p.op({"open", I(), sz(60), r.chance(50) ? "1" : "0"});
      else if (k < 10) p.op({"resize", I(), sz(90)});
      else if (k < 18) p.op({"write", I(), sz(60), sz(30), s, r.chance(30) ? "1" : "0"});   // 1: where the last access ended
      else if (k < 24) p.op({"read", I(), sz(60), sz(30), s, r.chance(30) ? "1" : "0"});
      else if (k < 28) p.op({"poke", I(), sz(60), s});
      else if (k == 28) p.op({"flush", I()});
      else if (k < 31) p.op({"close", I(), r.chance(80) ? "1" : "0"});
      else if (k < 33) p.op({"del", I()});
      else if (k < 35) p.op({"fifo", std::to_string(r.below(3)), r.chance(60) ? "-" : r.chance(50) ? "pipe" : "tmp/pipe2"});
      else if (k == 35) p.op({"nofifo", std::to_string(r.below(3))});
      else if (k == 36) p.op({"message", std::to_string(r.below(3)), sz(200), s});
      else if (k < 39) p.op({"buffer", std::to_string(r.below(2)), std::to_string(r.range(2, 9)), s});
      else p.op({"nobuffer", std::to_string(r.below(2))});
   }
}
static void faults(Rng& r, int tier, Plan& p, const Outcome& b)
{
   static const std::vector<FaultMenu> menu = {{E_MKSTEMP, "fail", 0, 0, 3}, {E_OPEN, "fail", 0, 0, 3}, {E_SEEK, "fail", 0, 0, 3}, {E_TRUNC, "fail", 0, 0, 4}, {E_MMAP, "fail", 0, 0, 4},
      {E_WRITE, "fail", 0, 0, 3}, {E_WRITE, "short", 1, 40, 4}, {E_WRITE, "eintr", 0, 0, 3}, {E_WRITE, "full", 0, 60, 4}, {E_WRITE, "zero", 0, 0, 1}, {E_READ, "fail", 0, 0, 3},
      {E_READ, "short", 1, 40, 4}, {E_READ, "eintr", 0, 0, 3}, {E_READ, "tear", 1, 40, 2}, {E_READ, "eof", 0, 0, 2}, {E_CLOSE, "fail", 0, 0, 2}, {E_UNLINK, "fail", 0, 0, 2}, {E_MKFIFO, "fail", 0, 0, 4},
      {E_ENTROPY, "same", 0, 0, 2}, {E_ENTROPY, "fail", 0, 0, 1}, {-1, "crash", 0, 0, 1}};
   add_faults(r, p, b, menu, 1 + (r.chance(50) ? r.below(3) : 0), 0, (int) p.ops.size() - 1);
}
namespace {
struct Inst {                       // one temporary array of some element type
   virtual ~Inst() {}
   virtual int esize() = 0;
   virtual char* open(size_t n, bool map) = 0;
   virtual char* resize(size_t n) = 0;
   virtual void seek(size_t n) = 0;
   virtual void read(char* b, size_t n) = 0;
   virtual void write(char* b, size_t n) = 0;
   virtual void flush() = 0;
   virtual void close(bool remove) = 0;
   virtual bool is_open() = 0;
   virtual size_t size() = 0;
};
template <class T> struct InstT : Inst {
   TmpFile<T> f;
   int esize() { return sizeof(T); }
   char* open(size_t n, bool map) { return (char*) f.Open(n, map); }
   char* resize(size_t n) { return (char*) f.Resize(n); }
   void seek(size_t n) { f.Seek(n); }
   void read(char* b, size_t n) { f.Read((T*) b, n); }
   void write(char* b, size_t n) { f.Write((T*) b, n); }
   void flush() { f.Flush(); }
   void close(bool remove) { f.Close(remove); }
   bool is_open() { return f.isOpen(); }
   size_t size() { return f.Size(); }
};
struct Model {                      // what the array has to contain
   bool open = false, map = false, grown = false;
   std::vector<str> val;            // element bytes, "" where nothing was written
   char* base = NULL;
   long pos = 0;                    // where the next access without a seek happens, -1: unknown
   str file;
};
}
static std::map<str, str> list_files(const str& d)   // names and kinds of everything below the working directory
{
   std::map<str, str> m;
   DIR* h = opendir(d.empty() ? "." : d.c_str());
   if (!h) return m;
   while (struct dirent* e = readdir(h)) {
      str n = e->d_name;
      if (n == "." || n == "..") continue;
      str path = d.empty() ? n : d + "/" + n;
      struct stat st;
      if (lstat(path.c_str(), &st)) continue;
      if (S_ISDIR(st.st_mode)) {
         auto s = list_files(path);
         m.insert(s.begin(), s.end());
      } else m[path] = S_ISFIFO(st.st_mode) ? "fifo" : "file";
   }
   closedir(h);
   return m;
}
static int body(const Plan& p, bool report)
{
   bool bad = false;
   auto fail = [&](const str& cls, const str& what) {
      if (bad || !report) return;
      bad = true;
      emit("fail", cls + "\t" + what);
   };
   str td = tdirs[std::max(0l, std::min(3l, p.num("tdir")))];
   {
      Quiet q;
      ParamContainer& gp = GlobalParams::Instance();
      if (!td.empty()) {
         if (p.num("env")) setenv("TMPDIR", td.c_str(), 1);
         else gp.SetValue("tmpdir", td);
      }
   }
   bool missing = td == "missing";
   std::unique_ptr<Inst> inst[4];
   Model mod[4];
   std::unique_ptr<FIFO> ff[3];
   std::unique_ptr<WFBuffer> wb[2];
   std::vector<str> wbspec[2];
   std::set<str> lost;               // files that may stay behind (kept on request or after a refused removal)
   std::map<str, str> foreign, before;
   bool unlinks = false, crashes = false;
   for (auto& f : p.faults) {
      unlinks |= f.cls == E_UNLINK;
      crashes |= f.cls < 0;
   }
   {
      Quiet q;
      foreign = read_tree(".");
      before = list_files("");
   }
   auto clean_check = [&](const str& when) {   // exactly the files of living owners exist
      Quiet q;
      auto now = list_files("");
      std::set<str> owned;
      for (auto& m : mod)
         if (m.open) owned.insert(m.file);
      for (auto& e : now) {
         if (before.count(e.first) || lost.count(e.first) || owned.count(e.first)) continue;
         bool of_fifo = false, of_buf = false;
         for (auto& f : ff)
            if (f && (e.first == f->GetName() + "rx" || e.first == f->GetName() + "tx" || "./" + e.first == f->GetName() + "rx")) of_fifo = true;
         if (e.second == "fifo" && !of_fifo)   // "tmp//QDng.." and the like
            for (auto& f : ff)
               if (f && f->GetName().size() > 8 && e.first.find(f->GetName().substr(f->GetName().rfind('/') + 1)) != str::npos) of_fifo = true;
         if (e.first.find("QDNG_WFBUFFER") != str::npos)
            for (auto& w : wb) of_buf |= w.get() != NULL;
         if (of_fifo || of_buf) continue;
         if (unlinks) lost.insert(e.first);
         else fail("file-left-behind", e.first + " " + when);
      }
      for (auto& f : owned)
         if (!now.count(f)) fail("file-of-living-owner-gone", f + " " + when);
      for (auto& e : before)
         if (!now.count(e.first)) fail("foreign-file-removed", e.first + " " + when);
      for (auto& e : foreign) {
         str s;
         if (before.count(e.first) && before[e.first] == "file" && (!read_file(e.first, s) || s != e.second)) fail("foreign-file-changed", e.first + " " + when);
      }
   };
   auto elem = [](int es, long seed, size_t i) {
      Rng r(seed * 1000003ull + i);
      str s(es, 0);
      for (auto& c : s) c = (char) (1 + r.below(255));
      return s;
   };
   auto verify = [&](int k, const str& when) {   // mapped arrays: everything is visible at once
      Model& m = mod[k];
      if (!m.open || !m.base) return;
      int es = inst[k]->esize();
      for (size_t i = 0; i < m.val.size(); i++)
         if (!m.val[i].empty() && memcmp(m.base + i * es, m.val[i].data(), es)) {
            fail("wrong-contents", fmt("mapped element %zu of %zu of array %d ", i, m.val.size(), k) + when);
            return;
         }
   };
   for (int i = 0; i < (int) p.ops.size() && i < MAX_OPS && !bad; i++) {
      op(i);
      auto arg = [&](size_t n, long d, long lo, long hi) {
         long v = p.ops[i].size() > n ? atol(p.ops[i][n].c_str()) : d;
         return std::max(lo, std::min(hi, v));
      };
      str what = p.ops[i].empty() ? "" : p.ops[i][0];
      int k = arg(1, 0, 0, 3);
      uint32_t f0 = S->fault_any;
      str desc;
      for (auto& w : p.ops[i]) desc += w + " ";
      if (what == "open" || what == "resize" || what == "write" || what == "read" || what == "poke" || what == "flush" || what == "close") {
         if (!inst[k]) {
            long t = p.num(fmt("type%d", k));
            inst[k].reset(t == 0 ? (Inst*) new InstT<int>() : t == 1 ? (Inst*) new InstT<double>() : (Inst*) new InstT<char>());
         }
         Inst& I = *inst[k];
         Model& m = mod[k];
         int es = I.esize();
         str err, readback;
         bool valid = true;
         std::map<str, str> was;
         {
            Quiet q;
            was = list_files("");
         }
         Model next = m;
         str oldfile = m.file;
         if (what == "open") {
            size_t n = arg(2, 1, 0, 5000);
            bool map = arg(3, 0, 0, 1);
            if (map && !n) continue;
            valid = !missing;
            next = Model();
            next.open = true;
            next.map = map;
            next.val.assign(n, "");
            err = guarded([&]() { next.base = I.open(n, map); });
            if (err.empty()) {
               Quiet q;
               for (auto& e : list_files(""))
                  if (!was.count(e.first) || e.first == oldfile) next.file = e.first;
               if (next.file.empty()) fail("no-file-of-its-own", desc);
               if (map && !next.base) fail("no-mapping", desc);
               if (!map && n) I.seek(0);
            }
         } else if (what == "resize") {
            size_t n = arg(2, 1, 0, 5000);
            if (m.map && !n) continue;
            next.val.resize(n, "");
            err = guarded([&]() { next.base = I.resize(n); });
            if (!m.open) {
               if (!err.empty()) continue;
               next = m;
            } else if (err.empty() && !m.map) {
               next.base = NULL;
               Quiet q;
               struct stat st;
               if (!stat(m.file.c_str(), &st) && st.st_size != (off_t) (n * es)) fail("wrong-size", desc + fmt("file has %ld bytes, expected %zu", (long) st.st_size, n * es));
            }
         } else if (what == "write") {
            size_t at = arg(2, 0, 0, 5000), n = arg(3, 1, 1, 5000);
            bool seq = arg(5, 0, 0, 1) && m.open && m.pos >= 0;
            if (seq) at = m.pos;
            if (m.open && m.map && at + n > m.val.size()) continue;
            str b;
            for (size_t j = 0; j < n; j++) b += elem(es, arg(4, 0, 0, 100000), j);
            valid = m.open;
            err = guarded([&]() {
               if (!seq) I.seek(at);
               I.write(&b[0], n);
            });
            if (m.open) {
               if (next.val.size() < at + n) next.val.resize(at + n, "");
               for (size_t j = 0; j < n; j++) next.val[at + j] = err.empty() ? b.substr(j * es, es) : str();
               if (!err.empty()) {   // if it is still open: the range is undefined, the rest is not
                  m.val = next.val;
               }
               m.pos = next.pos = err.empty() ? (long) (at + n) : -1;
            }
         } else if (what == "read") {
            size_t at = arg(2, 0, 0, 5000), n = arg(3, 1, 1, 5000);
            bool seq = arg(5, 0, 0, 1) && m.open && m.pos >= 0;
            if (seq) at = m.pos;
            valid = m.open && at + n <= m.val.size();
            str b(n * es, 'Z');
            err = guarded([&]() {
               if (!seq) I.seek(at);
               I.read(&b[0], n);
            });
            m.pos = next.pos = err.empty() ? (long) (at + n) : -1;
            if (err.empty() && m.open)
               for (size_t j = 0; j < n && at + j < m.val.size(); j++)
                  if (!m.val[at + j].empty() && memcmp(&b[j * es], m.val[at + j].data(), es)) {
                     fail("wrong-contents", desc + fmt("element %zu of %zu", at + j, m.val.size()));
                     break;
                  }
         } else if (what == "poke") {
            if (!m.open || !m.base || m.val.empty()) continue;
            size_t at = arg(2, 0, 0, 5000) % m.val.size();
            next.val[at] = elem(es, arg(3, 0, 0, 100000), at);
            memcpy(m.base + at * es, next.val[at].data(), es);
         } else if (what == "flush") {
            err = guarded([&]() { I.flush(); });
         } else {
            bool rem = arg(2, 1, 0, 1);
            err = guarded([&]() { I.close(rem); });
            if (m.open && !rem) {
               lost.insert(m.file);
               Quiet q;
               str s;
               if (err.empty() && read_file(m.file, s)) {   // kept files hold the array
                  for (size_t j = 0; j < m.val.size(); j++)
                     if (!m.val[j].empty() && (s.size() < (j + 1) * es || memcmp(&s[j * es], m.val[j].data(), es))) {
                        fail("wrong-contents", desc + fmt("element %zu of the kept file", j));
                        break;
                     }
               }
            }
            next = Model();
         }
         bool hit = S->fault_any != f0;
         if (err.empty()) {
            if (!valid) {
               if (what != "flush") fail("impossible-operation-succeeds", desc);
               next = m;
            }
            m = next;
            if (I.is_open() != m.open) fail("wrong-state", desc + (m.open ? "not open" : "still open"));
            if (m.open && (what == "open" || what == "resize" || what == "write") && I.size() != m.val.size()) fail("wrong-size", desc + fmt("Size() is %zu, expected %zu", I.size(), m.val.size()));
         } else {
            if (valid && !hit) fail("healthy-operation-fails", desc + err);
            if (what == "close") m = Model();
            else if (what == "open") {   // the old array is closed by this
               m = next;
               m.base = NULL;
               m.open = I.is_open();
               if (m.open) fail("wrong-state", desc + "open after an error: " + err);
            } else if (!I.is_open()) m = Model();
            else if (what == "resize") fail("wrong-state", desc + "open after an error: " + err);
            if (!m.open) m = Model();
         }
         for (int j = 0; j < 4; j++) verify(j, "after " + desc);
      } else if (what == "del") {
         inst[k].reset();
         mod[k] = Model();
      } else if (what == "fifo") {
         k %= 3;
         str name = p.ops[i].size() > 2 ? p.ops[i][2] : "-";
         if (name.empty() || name == "0") name = "-";
         ff[k].reset();
         bool taken = false;
         {
            Quiet q;
            struct stat st;
            if (name != "-") taken = !lstat((name + "rx").c_str(), &st) || !lstat((name + "tx").c_str(), &st);
         }
         str err = guarded([&]() { ff[k].reset(name == "-" ? new FIFO() : new FIFO(name)); });
         if (err.empty() && (taken || (missing && name == "-"))) fail("impossible-operation-succeeds", desc);
         if (!err.empty() && !taken && S->fault_any == f0 && !(missing && name == "-")) fail("healthy-operation-fails", desc + err);
         if (err.empty()) {
            Quiet q;
            struct stat st;
            for (str e : {"rx", "tx"})
               if (lstat((ff[k]->GetName() + e).c_str(), &st) || !S_ISFIFO(st.st_mode)) fail("no-file-of-its-own", desc + ff[k]->GetName() + e);
         }
      } else if (what == "nofifo") ff[k % 3].reset();
      else if (what == "message") {   // a peer at the other ends of the pipes
         k %= 3;
         if (!ff[k] || !p.faults.empty()) continue;
         str b = elem(arg(2, 1, 1, 3000), arg(3, 0, 0, 100000), 1), g(b.size(), 0), name = ff[k]->GetName();
         std::ostream& os = *ff[k]->GetSendStream();
         int rfd, wfd;
         {
            Quiet q;
            rfd = ::open((name + "tx").c_str(), O_RDONLY | O_NONBLOCK);
            wfd = ::open((name + "rx").c_str(), O_WRONLY | O_NONBLOCK);
         }
         os.write(b.data(), b.size());
         os.flush();
         {
            Quiet q;
            ssize_t n = ::read(rfd, &g[0], g.size());
            if (n != (ssize_t) b.size() || g != b) fail("message-damaged", desc);
            char rest[16];
            if (::read(rfd, rest, 16) > 0) fail("message-damaged", desc + "more than was sent");
            if (::write(wfd, b.data(), b.size()) < 0) fail("message-damaged", desc + "peer cannot write");
         }
         g.assign(b.size(), 0);
         ff[k]->GetRecvStream()->read(&g[0], g.size());
         if (g != b) fail("message-damaged", desc + "received");
         {
            Quiet q;
            ::close(rfd);
            ::close(wfd);
         }
      } else if (what == "buffer") {   // a wave function buffer with room for five elements
         k %= 2;
         long n = arg(2, 2, 0, 9), seed = arg(3, 0, 0, 100000);
         if (!wb[k]) {
            wbspec[k].clear();
            GlobalParams::Instance().SetValue("MaxBufferSize", str("480"));
            str err = guarded([&]() { wb[k].reset(new WFBuffer()); });
            if (!err.empty() && S->fault_any == f0) fail("healthy-operation-fails", desc + err);
            if (!wb[k]) continue;
         }
         bool ok = true;
         for (long j = 0; j < n && ok; j++) {
            str spec = fmt("level:6/u/%ld", seed + j);
            WaveFunction* w = make_wf(spec);
            f0 = S->fault_any;
            str err = guarded([&]() { wb[k]->Add(w); });
            delete w;
            ok = err.empty();
            if (!ok && S->fault_any == f0 && !missing) fail("healthy-operation-fails", desc + err);
            if (ok) wbspec[k].push_back(spec);
         }
         if (!ok) {
            wb[k].reset();   // contents after errors are C04
            continue;
         }
         for (size_t j = 0; j < wbspec[k].size() && wb[k]; j++) {
            f0 = S->fault_any;
            WaveFunction* w = NULL;
            str err = guarded([&]() { w = wb[k]->Get(j); });
            if (!err.empty()) {
               if (S->fault_any == f0) fail("healthy-operation-fails", desc + err);
               wb[k].reset();
               break;
            }
            std::vector<double> x, y;
            WaveFunction* v = make_wf(wbspec[k][j]);
            describe_values(w, x);
            describe_values(v, y);
            delete v;
            if (x.size() != y.size() || memcmp(&x[0], &y[0], 8 * x.size())) fail("wrong-contents", desc + fmt("buffer element %zu", j));
         }
      } else if (what == "nobuffer") wb[k % 2].reset();
      clean_check("after " + desc);
   }
   op(std::min((int) p.ops.size(), MAX_OPS - 1));
   // unmapped arrays are read back completely
   for (int k = 0; k < 4 && !bad; k++) {
      Model& m = mod[k];
      if (!m.open) continue;
      int es = inst[k]->esize();
      for (size_t j = 0; j < m.val.size() && !bad; j++) {
         if (m.val[j].empty()) continue;
         str b(es, 'Z');
         Quiet q;
         str err = guarded([&]() {
            inst[k]->seek(j);
            inst[k]->read(&b[0], 1);
         });
         if (!err.empty()) {
            if (!crashes && p.faults.empty()) fail("healthy-operation-fails", "final read: " + err);
            break;
         }
         if (b != m.val[j]) fail("wrong-contents", fmt("final: element %zu of array %d", j, k));
      }
   }
   for (auto& x : inst) x.reset();
   for (auto& m : mod) m = Model();
   for (auto& x : ff) x.reset();
   for (auto& x : wb) x.reset();
   clean_check("at the end");
   if (open_fds()) fail("descriptor-leak", fmt("%d descriptors", open_fds()));
   return 0;
}
static Outcome exec(const Plan& p)
{
   Outcome o;
   str d = fresh_dir("run");
   mkdir((d + "/tmp").c_str(), 0700);
   if (p.num("foreign")) {
      for (str n : {"QDng_cmd_XXXXXXrx", "QDng_tmp_aaaaaa", "tmp/QDng_tmp_XXXXXX", "QDNG_WFBUFFER_1", "tmp/QDng_cmd_XXXXXXtx", "pipetx"}) write_file(d + "/" + n, "foreign " + n);
   }
   ChildOpts co;
   co.fill = p.num("fill", 0xa5);
   co.entropy_same = p.num("same") > 0;
   co.max_events = 400000;
   if (p.num("other")) {   // the same program, stopped somewhere in the middle; its files belong to it
      Plan q = p;
      q.faults.clear();
      ChildOpts c1 = co;
      Fault f;
      f.op = std::max(0l, std::min(999l, p.num("at"))) * (long) p.ops.size() / 1000;
      f.cls = -1;
      f.n = p.num("at") % 7;
      f.kind = "crash";
      f.arg = 0;
      c1.faults.push_back(f);
      c1.pid = 77;
      ChildResult r = run_child(d, c1, [&]() { return body(q, false); });
      o.add(r);
      o.probes["with_another_process"]++;
   }
   co.faults = p.faults;
   ChildResult r = run_child(d, co, [&]() { return body(p, true); });
   o.add(r);
   o.faultable(r);
   o.state = r.log_hash;
   o.nontrivial = p.faults.empty() || r.fault_any > 0;
   if (verbose) o.log += r.log;
   if (r.has("fail")) {
      auto w = split(r.get("fail"), '\t');
      o.fail(w[0], w.size() > 1 ? w[1] : "");
   } else if (r.how == ChildResult::CRASHED) o.probes["killed"]++;
   else if (r.how == ChildResult::HANG) o.fail("hang", r.how_text());
   else if (r.how != ChildResult::EXIT || r.code) o.fail("crash", r.how_text());
   return o;
}
static RegProp reg({"C11", gen, exec, faults, 3, 8, 8000, 400000});
