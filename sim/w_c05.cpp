// C05: the command server answers every command correctly, once and in order.
#include "store.h"
#include <math.h>
#include <set>
#include <sstream>
#include "CmdHandler.h"
#include "IACmds.pb.h"
#include "ChainLoader.h"
#include "GlobalOpList.h"
#include "qdlib/OPropagator.h"
#include "tools/XmlParser.h"
#include "tools/Collector.h"
#include "modules/ModuleLoader.h"
using namespace QDLIB;
using namespace sim;

static bool is_prop(const str& k) { return k == "chebyl" || k == "cheby" || k == "sil" || k == "spo" || k == "rk4" || k == "arnoldi"; }
static str op_xml(const str& kind, const str& key)
{
   str k = key.empty() ? "" : " key=\"" + key + "\"";
   if (kind == "nabla") return "<op name=\"GridNablaSq\" mass=\"900\"" + k + "/>";
   if (kind == "scalar") return "<op name=\"Scalar\" value=\"0.5\" im=\"-0.25\"" + k + "/>";
   if (kind == "pos") return "<op name=\"GridPosition\" dim=\"0\"" + k + "/>";
   if (kind == "pot") return "<op name=\"GridPotential\" file=\"pot0\"" + k + "/>";
   if (kind == "nopot") return "<op name=\"GridPotential\" file=\"absent\"" + k + "/>";
   if (kind == "sum") return "<op name=\"Sum\"" + k + "><T name=\"GridNablaSq\" mass=\"900\"/><V name=\"GridPotential\" file=\"pot0\"/></op>";
   if (kind == "mat") return "<op name=\"HermitianMatrix\" file=\"mat0\"" + k + "/>";
   if (kind == "unknown") return "<op name=\"NoSuchThing\"" + k + "/>";
   if (kind == "noxml") return "<op name=\"Scalar\"";
   if (kind == "multi") return "<op name=\"Multistate\"" + k + " states=\"2\"><m0.0 name=\"GridNablaSq\" mass=\"900\"/><m0.1 name=\"Scalar\" value=\"0.1\"/><m1.0 name=\"Scalar\" value=\"0.1\"/><m1.1 name=\"GridPotential\" file=\"pot0\"/></op>";
   if (kind == "spo") return "<op name=\"SPO\"" + k + "><Tkin name=\"GridNablaSq\" mass=\"900\"/><Vpot name=\"GridPotential\" file=\"pot0\"/></op>";
   if (kind == "chebyl")
      return "<op name=\"Cheby\"" + k + "><hamiltonian name=\"Sum\"><T name=\"GridNablaSq\" mass=\"900\"/><V name=\"GridPotential\" file=\"pot0\"/><D name=\"GridDipole\" file=\"dip0\" laser=\"las0\"/></hamiltonian></op>";
   if (is_prop(kind))
      return str("<op name=\"") + (kind == "cheby" ? "Cheby" : kind == "sil" ? "SIL\" order=\"4" : kind == "rk4" ? "RK4" : "Arnoldi\" order=\"4") + "\"" + k +
             "><hamiltonian name=\"Sum\"><T name=\"GridNablaSq\" mass=\"900\"/><V name=\"GridPotential\" file=\"pot0\"/></hamiltonian></op>";
   return "";
}
static str prog_xml(const std::vector<str>& q)   // run steps outdir [operator reference]
{
   str h = q.size() > 3 && q[3] != "-" ? "<hamiltonian ref=\"" + q[3] + "\"/>" :
           "<hamiltonian name=\"Sum\"><T name=\"GridNablaSq\" mass=\"900\"/><V name=\"GridPotential\" file=\"pot0\"/></hamiltonian>";
   str u = q.size() > 4 && q[4] == "u" ? "<propagator ref=\"" + q[3] + "\"/>" : "<propagator name=\"" + str(q.size() > 5 ? q[5] : "Cheby") + "\" order=\"4\">" + h + "</propagator>";
   return "<qdng><propa dt=\"" + str(q.size() > 6 ? q[6] : "1") + "\" steps=\"" + q[1] + "\" wcycle=\"1\" dir=\"" + q[2] + "\">" + u + "<wf file=\"f0\"/></propa></qdng>";
}
static const int N = 8;   // grid points of everything that has to fit together
static str rand_wf(Rng& r)
{
   str s = "/u/" + std::to_string(8 * r.below(500));
   int k = r.below(12);
   return k < 8 ? "grid:" + std::to_string(N) + s : k == 8 ? "grid:" + std::to_string(r.range(1, 20)) + s : k == 9 ? "level:" + std::to_string(r.range(1, 9)) + s :
          k == 10 ? fmt("multi:%ld:%d", r.range(1, 3), N) + s : (r.chance(20) ? "grid:900" + s : "grid2:3:4" + s);
}
static void gen(Rng& r, int tier, Plan& p)
{
   p.set("chunk", r.chance(30) ? 1 : r.chance(50) ? r.range(2, 40) : 100000);
   p.set("depth", r.chance(50) ? 1 : r.range(2, 6));
   p.set("fill", r.below(256));
   p.set("cut", -1);
   p.set("broken", -1);
   p.set("fresh", r.chance(50));
   if (r.chance(30)) p.set("cut", r.chance(50) ? r.below(300) : r.below(6000));
   else if (r.chance(15)) p.set("broken", r.chance(50) ? r.below(60) : r.below(4000));
   int n = r.range(1, tier ? 20 : 12);
   static const char* good[] = {"nabla", "scalar", "pos", "pot", "sum", "multi", "cheby", "sil", "spo", "rk4", "arnoldi", "chebyl"};
   static const char* bad[] = {"nopot", "unknown", "noxml", "mat"};
   auto kind = [&]() { return str(r.chance(90) ? good[r.below(r.chance(60) ? 6 : 12)] : bad[r.below(4)]); };
   int clocked = -1, csteps = 0;   // a propagator with its own clock
   auto target = [&]() { return clocked >= 0 && r.chance(50) ? fmt("k%d", clocked) : r.chance(50) ? "k" + std::to_string(r.below(3)) : "x:" + (kind()); };
   for (int i = 0; i < n; i++) {
      int k = r.below(40);
      if (k < 3) p.op({"getgp"});
      else if (k < 6) {
         static const char* keys[] = {"foo", "compress", "compress", "wf_format", "comptol", "bar"};
         static const char* vals[] = {"3", "yes", "no", "binary", "0.1", "x~y"};
         int w = r.below(6);
         p.op({"setgp", keys[w], vals[w]});
      } else if (k < 7) p.op({"clear"});
      else if (k < 12) p.op({"loadop", "k" + std::to_string(r.below(3)), kind()});
      else if (k < 14) {
         clocked = r.below(3);
         csteps = r.range(1, 9);
         p.op({"loadu", fmt("k%d", clocked), r.chance(90) ? good[r.chance(30) ? 11 : 6 + r.below(6)] : kind(), std::to_string(r.chance(40) ? 5 : r.range(1, 20)), std::to_string(csteps)});
      } else if (k < 20) {
         str t = target();
         p.op({"apply", t, rand_wf(r), r.chance(t == fmt("k%d", clocked) ? 20 : 65) ? "-" : std::to_string(r.chance(80) ? r.range(0, csteps) : r.range(-1, 9))});
      }
      else if (k < 24) p.op({"expec", target(), rand_wf(r)});
      else if (k < 27) p.op({"matel", target(), rand_wf(r), rand_wf(r)});
      else if (k < 30) p.op({"readwf", r.chance(85) ? "f" + std::to_string(r.below(4)) : "absent"});
      else if (k < 33) p.op({"writewf", "f" + std::to_string(r.range(1, 5)), rand_wf(r), r.chance(30) ? "gzip" : "-"});
      else if (k < 35) p.op({"readop", r.chance(80) ? "pot0.op" : "absent.op", r.chance(80) ? "GridPotential" : r.chance(50) ? "Scalar" : "Nonsense"});
      else if (k < 37) {
         int w = r.below(8);
         p.op({"writeop", "o" + std::to_string(r.below(3)), w < 3 ? "OGridPotential" : w < 5 ? "Laser" : w == 5 ? "GridPotential" : w == 6 ? "HermitianMatrix" : "Sum",
               w < 3 || w == 5 ? "pot:" + std::to_string(r.range(2, 9)) + "/u/" + std::to_string(8 * r.below(99)) : w < 5 ? "laser:" + std::to_string(r.range(2, 9)) + "/u/" + std::to_string(8 * r.below(99)) : "mat:3/u/8",
               r.chance(30) ? "gzip" : "-"});
      } else if (k == 37) {
         static const char* us[] = {"Cheby", "SIL", "RK4", "Arnoldi"};
         static const char* dts[] = {"1", "0.5", "2"};
         p.op({"run", std::to_string(r.range(1, 4)), "out" + std::to_string(r.below(2)), r.chance(70) ? str("-") : "k" + std::to_string(r.below(3)), r.chance(25) ? "u" : "h", us[r.below(4)], dts[r.below(3)]});
      } else if (k == 38) p.op({"missing", std::to_string(r.below(13))});
      else if (r.chance(35)) p.op({"badwf", "b" + std::to_string(r.below(2)), rand_wf(r), std::to_string(r.chance(80) ? r.below(180) : r.below(100000)), std::to_string(r.below(256))});
      else if (r.chance(25)) p.op({"garbage", std::to_string(r.below(5)), std::to_string(r.below(1000))});
      else p.op({"unimplemented"});
   }
   if (r.chance(85)) p.op({"quit"});
}
static void faults(Rng& r, int tier, Plan& p, const Outcome& b)
{
   static const std::vector<FaultMenu> menu = {
      {E_OPEN, "fail", 0, 0, 3}, {E_READ, "fail", 0, 0, 4}, {E_READ, "short", 1, 40, 3}, {E_READ, "tear", 1, 100, 3}, {E_READ, "eof", 0, 0, 2}, {E_WRITE, "fail", 0, 0, 4},
      {E_WRITE, "full", 0, 200, 3}, {E_WRITE, "short", 1, 60, 2}, {E_CLOSE, "fail", 0, 0, 2}, {E_WRITE, "eintr", 0, 0, 1}};
   add_faults(r, p, b, menu, 1 + r.below(2), 0, (int) p.ops.size() - 1);
}

// ------------------------------------------------------------------ wire format
static str frame(const Command& c)
{
   str s;
   c.SerializePartialToString(&s);
   uint32_t n = s.size();
   return str((char*) &n, 4) + s;
}
static str wire_wf(const str& spec)
{
   std::ostringstream os;
   WaveFunction* w = make_wf(spec);
   {
      FileWF f;
      f.Compress(false);
      f.SetOutputStream(os);
      f.Format(FileSingle<WaveFunction>::stream);
      f.WriteWaveFunction(w);
   }
   DELETE_WF(w);
   return os.str();
}
static str wire_obj(const str& spec)
{
   std::ostringstream os;
   AnyObj o = make_obj(spec);
   FileSingle<Serializiable> f;
   f.Compression(FileSingle<Serializiable>::UNCOMPRESSED);
   f.SetOutputStream(os);
   f.Format(FileSingle<Serializiable>::stream);
   f.WriteSingleFileToStream(o.pot ? (Serializiable*) o.pot : o.mat ? (Serializiable*) o.mat : (Serializiable*) o.laser);
   return os.str();
}
struct Answer {
   enum K { NONE, RESP, DATA, BAD } k = NONE;
   Response r;
   str data;      // description of the object
};
static Answer parse_answer(const str& out, size_t& at, bool op_data)
{
   Answer a;
   size_t avail = out.size() - at;
   if (avail < 4) return a;
   if (avail >= sizeof(PBUF_MAGIC) && !memcmp(out.data() + at, PBUF_MAGIC, sizeof(PBUF_MAGIC))) {
      std::istringstream is(out.substr(at));
      str e = guarded([&]() {
         if (op_data) {
            FileSingle<Serializiable> f;
            f.SetInputStream(is);
            AnyObj o = empty_obj("pot:1");
            f.ReadSingleFileFromStream(o.pot);
            a.data = describe(o);
         } else {
            FileWF f;
            f.SetInputStream(is);
            WaveFunction* w = f.LoadWaveFunctionByMeta();
            a.data = describe(w);
            DELETE_WF(w);
         }
      });
      if (!e.empty()) {
         a.k = Answer::BAD;
         a.data = e;
         return a;
      }
      a.k = Answer::DATA;
      is.clear();
      at += is.tellg() < 0 ? avail : (size_t) is.tellg();
      return a;
   }
   uint32_t n;
   memcpy(&n, out.data() + at, 4);
   if (n > (1u << 20)) {
      a.k = Answer::BAD;
      a.data = fmt("message of %u bytes announced", n);
      return a;
   }
   if (avail < 4 + (size_t) n) return a;
   if (!a.r.ParseFromArray(out.data() + at + 4, n)) {
      a.k = Answer::BAD;
      a.data = "answer cannot be parsed";
      return a;
   }
   a.k = Answer::RESP;
   at += 4 + n;
   return a;
}

// ------------------------------------------------------------------ the client, driven by the server's reads
struct Step {
   int op;
   enum K { SEND, ACK, FINAL } k;   // ACK: go-ahead, FINAL: the outcome
   str bytes;
};
static Command base_cmd(const std::vector<str>& q)
{
   Command c;
   auto target = [&](const str& t) { t[0] == 'x' ? c.set_xml(op_xml(t.substr(2), "")) : c.set_param_s1(t); };
   if (q[0] == "getgp") c.set_cmd(Command_command_t_GET_GLOBAL_PARAMS);
   else if (q[0] == "setgp") {
      c.set_cmd(Command_command_t_SET_GLOBAL_PARAMS);
      c.set_param_s1(q[1] + " = " + q[2] + "\n");
   } else if (q[0] == "clear") c.set_cmd(Command_command_t_CLEAR_OBJECTS);
   else if (q[0] == "loadop") {
      c.set_cmd(Command_command_t_LOAD_OP);
      c.set_xml(op_xml(q[2], q[1]));
   } else if (q[0] == "loadu") {
      c.set_cmd(Command_command_t_LOAD_U);
      c.set_xml(op_xml(q[2], q[1]));
      c.set_param_d1(atof(q[3].c_str()));
      c.set_param_d2(atof(q[4].c_str()));
   } else if (q[0] == "apply") {
      c.set_cmd(Command_command_t_APPLY_OP);
      target(q[1]);
      if (q[3] != "-") c.set_param_d1(atof(q[3].c_str()));
   } else if (q[0] == "expec") {
      c.set_cmd(Command_command_t_GET_EXPEC);
      target(q[1]);
   } else if (q[0] == "matel") {
      c.set_cmd(Command_command_t_GET_MATEL);
      target(q[1]);
   } else if (q[0] == "readwf") {
      c.set_cmd(Command_command_t_READ_WF);
      c.set_param_s1(q[1]);
   } else if (q[0] == "badwf") {
      c.set_cmd(Command_command_t_WRITE_WF);
      c.set_param_s1(q[1]);
   } else if (q[0] == "writewf") {
      c.set_cmd(Command_command_t_WRITE_WF);
      c.set_param_s1(q[1]);
      if (q[3] != "-") c.set_param_s2(q[3]);
   } else if (q[0] == "readop") {
      c.set_cmd(Command_command_t_READ_OP);
      c.set_param_s1(q[1]);
      c.set_param_s2(q[2]);
   } else if (q[0] == "writeop") {
      c.set_cmd(Command_command_t_WRITE_OP);
      c.set_param_s1(q[1]);
      c.set_param_s2(q[2]);
      if (q[4] != "-") c.set_param_s3(q[4]);
   } else if (q[0] == "run") {
      c.set_cmd(Command_command_t_RUN_PROG);
      c.set_xml(prog_xml(q));
   } else if (q[0] == "missing") {   // a command without its required fields
      static const Command_command_t cmds[] = {Command_command_t_SET_GLOBAL_PARAMS, Command_command_t_RUN_PROG, Command_command_t_READ_WF, Command_command_t_WRITE_WF, Command_command_t_READ_OP,
         Command_command_t_WRITE_OP, Command_command_t_LOAD_OP, Command_command_t_LOAD_U, Command_command_t_GET_EXPEC, Command_command_t_APPLY_OP, Command_command_t_READ_OP, Command_command_t_WRITE_OP, Command_command_t_LOAD_U};
      int k = atoi(q[1].c_str()) % 13;
      c.set_cmd(cmds[k]);
      if (k == 10 || k == 11) c.set_param_s1("q");
      if (k == 12) c.set_xml(op_xml("cheby", ""));
   } else if (q[0] == "unimplemented") c.set_cmd(Command_command_t_DELETE_OP);
   else c.set_cmd(Command_command_t_QUIT);
   return c;
}
static str garbage(const std::vector<str>& q)
{
   Rng r(strtoul(q[2].c_str(), 0, 10));
   int k = atoi(q[1].c_str());
   uint32_t n = k == 0 ? 0xffffffffu : k == 1 ? 0x7fffffffu : k == 2 ? 0 : r.range(1, 60);
   str s((char*) &n, 4);
   for (uint32_t i = 0; k > 2 && i < n; i++) s += (char) (k == 3 ? r.below(256) : 0x08);
   return s;
}
static void build_steps(const Plan& p, std::vector<Step>& st)
{
   for (size_t i = 0; i < p.ops.size(); i++) {
      const std::vector<str>& q = p.ops[i];
      auto add = [&](Step::K k, const str& b = "") { st.push_back(Step{(int) i, k, b}); };
      if (q[0] == "garbage") {
         add(Step::SEND, garbage(q));
         add(Step::FINAL);
         continue;
      }
      add(Step::SEND, frame(base_cmd(q)));
      if (q[0] == "readwf") add(Step::ACK);
      else if (q[0] == "writewf" || q[0] == "expec" || q[0] == "apply") {
         add(Step::ACK);
         add(Step::SEND, wire_wf(q[2]));
      } else if (q[0] == "badwf") {
         str b = wire_wf(q[2]);
         b[atol(q[3].c_str()) % b.size()] = (char) atoi(q[4].c_str());
         add(Step::ACK);
         add(Step::SEND, b);
      } else if (q[0] == "writeop") {
         add(Step::ACK);
         add(Step::SEND, wire_obj(q[3]));
      } else if (q[0] == "matel") add(Step::SEND, wire_wf(q[2]) + wire_wf(q[3]));
      if (q[0] != "quit") add(Step::FINAL);
   }
}
namespace {
struct Client {
   const Plan& p;
   std::vector<Step> st;
   size_t sendp = 0, recvp = 0;      // next step to send / to receive
   str out;                          // what the server has written
   size_t flushed = 0, at = 0;
   long fed = 0, cut, broken;
   str queue;                        // bytes on their way to the server
   size_t chunk;
   Rng r;
   bool eof = false, stuck = false, closed = false;
   int stuck_op = -1;
   std::vector<Answer> ans;          // outcome of each command
   std::vector<bool> done, sent;     // answered / completely sent
   str bad;
   Client(const Plan& q) : p(q), r(q.seed)
   {
      cut = p.num("cut", -1);
      broken = p.num("broken", -1);
      chunk = std::max(1L, p.num("chunk", 100000));
      ans.resize(p.ops.size());
      done.resize(p.ops.size());
      sent.resize(p.ops.size());
      build_steps(p, st);
   }
   void fail(const str& s) { if (bad.empty()) bad = s; }
   void receive()
   {
      while (recvp < st.size() && bad.empty()) {
         if (st[recvp].k == Step::SEND) {
            if (recvp >= sendp) return;   // nothing owed yet
            recvp++;
            continue;
         }
         str avail = out.substr(0, flushed);
         int o = st[recvp].op;
         Answer a = parse_answer(avail, at, p.ops[o][0] == "readop");
         if (a.k == Answer::NONE) return;
         if (a.k == Answer::BAD) {
            fail(fmt("answer-damaged op %d: ", o) + a.data);
            return;
         }
         bool err = a.k == Answer::RESP && a.r.response() != Response_response_t_OK;
         note("answer op %d: %s", o, a.k == Answer::DATA ? a.data.c_str() : a.r.ShortDebugString().c_str());
         if (st[recvp].k == Step::ACK && !err) {
            if (a.k == Answer::DATA) fail(fmt("answer-out-of-order op %d: data instead of the go-ahead", o));
            recvp++;
            continue;
         }
         ans[o] = a;
         done[o] = true;
         // an error answer ends the command: what was not sent yet is not sent
         while (recvp < st.size() && st[recvp].op == o) recvp++;
         if (sendp < recvp) sendp = recvp;
      }
   }
   bool may_send(size_t k)
   {
      if (k >= st.size()) return false;
      int inflight = 0;
      for (size_t j = recvp; j < k; j++) {
         if (st[j].k == Step::ACK && (k == j + 1 || st[k].op == st[j].op)) return false;   // wait for the go-ahead
         if (st[j].k == Step::ACK && j + 1 < st.size() && st[j + 1].k == Step::SEND && st[j + 1].op == st[j].op) return false;
         if (st[j].k == Step::FINAL) inflight++;
      }
      return inflight < std::max(1L, p.num("depth", 1));
   }
   // the server wants to read: make bytes available
   bool pump()
   {
      receive();
      if (eof || !bad.empty()) return false;
      while (queue.empty()) {
         while (sendp < st.size() && st[sendp].k != Step::SEND) {   // skip answers we do not have to wait for
            size_t k = sendp;
            while (k < st.size() && st[k].k != Step::SEND) k++;
            if (!may_send(k)) break;
            sendp = k;
         }
         if (sendp >= st.size() || st[sendp].k != Step::SEND || !may_send(sendp)) {
            bool owed = false;
            for (size_t j = recvp; j < std::min(sendp, st.size()); j++) owed = owed || st[j].k != Step::SEND;
            if (owed && !stuck) {
               stuck = true;
               for (size_t j = recvp; j < st.size(); j++)
                  if (st[j].k != Step::SEND) { stuck_op = st[j].op; break; }
            }
            closed = eof = true;   // the client goes away
            return false;
         }
         int o = st[sendp].op;
         if (sendp == 0 || st[sendp - 1].op != o) op(o);
         queue = st[sendp].bytes;
         if (sendp + 1 >= st.size() || st[sendp + 1].op != o || st[sendp + 1].k == Step::FINAL) sent[o] = true;
         sendp++;
         if (queue.empty()) continue;
      }
      return true;
   }
};
struct InBuf : std::streambuf {
   Client& c;
   char b[256];
   InBuf(Client& x) : c(x) {}
   int_type underflow()
   {
      Quiet z;
      if (!c.pump()) return traits_type::eof();
      size_t n = std::min(std::min(c.queue.size(), sizeof b), 1 + (size_t) c.r.below(c.chunk));
      if (c.cut >= 0) {
         if (c.fed >= c.cut) {
            c.eof = true;
            return traits_type::eof();
         }
         n = std::min(n, (size_t) (c.cut - c.fed));
      }
      memcpy(b, c.queue.data(), n);
      c.queue.erase(0, n);
      c.fed += n;
      setg(b, b, b + n);
      return traits_type::to_int_type(b[0]);
   }
};
struct OutBuf : std::streambuf {
   Client& c;
   OutBuf(Client& x) : c(x) {}
   bool full(size_t n) { return c.broken >= 0 && (long) (c.out.size() + n) > c.broken; }
   int_type overflow(int_type ch)
   {
      if (ch == traits_type::eof()) return 0;
      if (full(1)) return traits_type::eof();
      c.out += (char) ch;
      return ch;
   }
   std::streamsize xsputn(const char* s, std::streamsize n)
   {
      if (full(n)) return 0;
      c.out.append(s, n);
      return n;
   }
   int sync()
   {
      if (full(0)) return -1;
      c.flushed = c.out.size();
      return 0;
   }
};
}
// ------------------------------------------------------------------ the same actions, performed directly
static Operator* load_target(const str& t)
{
   if (t[0] != 'x') return GlobalOpList::Instance()[t];
   str x = op_xml(t.substr(2), "");
   XmlParser f;
   f.Parse(x.c_str(), x.size());
   XmlNode& root = f.Root();
   return ChainLoader::LoadOperatorChain(&root, true);
}
static str num(double d) { return hex(&d, 8); }
static str value_text(WaveFunction* w)
{
   std::vector<double> v;
   describe_values(w, v);
   str s;
   for (auto x : v) s += fmt("%.17g ", x);
   return s;
}
static str* crosscheck;   // where to put the value of <bra|O ket> with O applied in place
static str direct(const std::vector<str>& q, str& values)
{
   str res = "ok";
   str e = guarded([&]() {
      ParamContainer& gp = GlobalParams::Instance();
      if (q[0] == "getgp") {
         str s;
         gp.Write(s, false);
         res = "msg " + s;
      } else if (q[0] == "setgp") gp.SetValue(q[1], q[2]);
      else if (q[0] == "clear") {
         GlobalOpList::Instance().Clear(true);
      } else if (q[0] == "loadop" || q[0] == "loadu") {
         str x = op_xml(q[2], q[1]);
         XmlParser f;
         f.Parse(x.c_str(), x.size());
         XmlNode& root = f.Root();
         if (q[0] == "loadop") ChainLoader::LoadOperatorChain(&root, true);
         else {
            OPropagator* U = ChainLoader::LoadPropagator(&root, true);
            U->Clock(new QDClock(int(atof(q[4].c_str())), atof(q[3].c_str())));
         }
      } else if (q[0] == "apply" || q[0] == "expec" || q[0] == "matel") {
         Operator* O = load_target(q[1]);
         if (q[0] == "apply" && q[3] != "-") {
            if (!O->Clock()) throw Exception("no clock");
            int t = atoi(q[3].c_str());
            if (t < 0 || t > O->Clock()->Steps()) throw Exception("time");
            O->Clock()->TimeStep(t);
         }
         if (dynamic_cast<OPropagator*>(O) && !O->Clock()) throw Exception("no clock");
         WaveFunction* a = make_wf(q[2]);
         WaveFunction* b = q[0] == "matel" ? make_wf(q[3]) : NULL;
         if (!O->Valid(a)) O->Init(a);
         if (!O->Valid(a) || (b && !O->Valid(b))) throw Exception("incompatible");
         if (q[0] == "apply") {
            O->Apply(a);
            res = "data " + describe(a);
            values = value_text(a);
         } else if (q[0] == "expec") {
            double x = O->Expec(a);
            res = "res " + num(x);
            values = fmt("%.17g", x);
            if (crosscheck) {
               O->Apply(a);
               *crosscheck = fmt("%.17g", (*make_wf(q[2]) * a).real());
            }
         } else {
            dcomplex z = O->MatrixElement(a, b);
            values = fmt("%.17g %.17g", z.real(), z.imag());
            res = "res " + num(z.real()) + " " + num(z.imag());
            if (crosscheck) {
               O->Apply(b);
               z = *a * b;
               *crosscheck = fmt("%.17g %.17g", z.real(), z.imag());
            }
         }
      } else if (q[0] == "readwf") {
         FileWF f;
         f.Name(q[1]);
         WaveFunction* w = f.LoadWaveFunctionByMeta();
         res = "data " + describe(w);
      } else if (q[0] == "writewf") {
         WaveFunction* w = make_wf(q[2]);
         FileWF f;
         f.Name(q[1]);
         if (q[3] == "gzip") f.Compress(true);
         f.Format(FileSingle<WaveFunction>::stream);
         f.WriteWaveFunction(w);
      } else if (q[0] == "readop") {
         if (q[2] != "GridPotential") throw Exception("class");
         AnyObj o = empty_obj("pot:1");
         FileSingle<Serializiable> f;
         f.Name(q[1]);
         f.ReadSingleFileFromStream(o.pot);
         res = "data " + describe(o);
      } else if (q[0] == "writeop") {
         if (q[2] == "Sum") throw Exception("class");
      } else if (q[0] == "run") {
         str x = prog_xml(q);
         std::map<str, QDClock*> clocks;   // a program may attach its clock to the operators it refers to, but only for its run
         for (const char* k : {"k0", "k1", "k2"}) guarded([&]() { clocks[k] = GlobalOpList::Instance()[k]->Clock(); });
         str err = guarded([&]() { CmdHandler::RunXML(x.c_str(), x.size(), ""); });
         for (auto& k : clocks)
            if (GlobalOpList::Instance()[k.first]->Clock() != k.second) GlobalOpList::Instance()[k.first]->Clock(k.second);
         if (!err.empty()) throw Exception(err.c_str());
         FileWF f;
         f.Name(q[2] + "/WF_" + q[1]);
         WaveFunction* w = NULL;
         f >> &w;
         values = value_text(w);
         DELETE_WF(w);
      } else if (q[0] == "badwf") res = "?";
      else if (q[0] != "quit") throw Exception("malformed");
   });
   if (!e.empty()) note("direct: %s", e.c_str());
   return e.empty() ? res : "err";
}
static str answer_text(const Answer& a)
{
   if (a.k == Answer::DATA) return "data " + a.data;
   if (a.r.response() != Response_response_t_OK) return "err";
   if (a.r.result_size()) {
      str s = "res";
      for (int i = 0; i < a.r.result_size(); i++) s += " " + num(a.r.result(i));
      return s;
   }
   if (a.r.has_msg()) return "msg " + a.r.msg();
   return "ok";
}

static bool same_numbers(const str& a, const str& b)
{
   std::istringstream ia(a), ib(b);
   str x, y;
   double sc = 0, d = 0;
   std::vector<double> va, vb;
   while (ia >> x) va.push_back(atof(x.c_str()));
   while (ib >> y) vb.push_back(atof(y.c_str()));
   for (size_t k = 0; k < std::min(va.size(), vb.size()); k++) {
      if (std::isnan(va[k]) && std::isnan(vb[k])) continue;
      if (std::isnan(va[k]) || std::isnan(vb[k])) return false;
      sc = std::max(sc, std::max(fabs(va[k]), fabs(vb[k])));
      d = std::max(d, fabs(va[k] - vb[k]));
   }
   return va.size() == vb.size() && d <= 1e-9 * sc;
}
// what was loaded, applied or run before must not show in the result of a command: each one again, in a process of its own
static void fresh_results(const Plan& p, const ChildResult& e, const str& ref, const ChildOpts& plain, Outcome& o)
{
   struct Loaded { std::vector<str> load; long time; bool known; };
   std::map<str, Loaded> keys;
   std::vector<std::vector<str> > gps;
   for (size_t i = 0; i < p.ops.size(); i++) {
      std::vector<str> q = p.ops[i];
      str want = e.get(fmt("e%zu", i), "err");
      if (want == "err") {
         if (q[0] == "loadop" || q[0] == "loadu") keys.erase(q[1]);   // (may be there or not)
         if (q[0] == "apply" && q[3] != "-" && keys.count(q[1])) keys[q[1]].known = false;   // (refused before or after its clock was set)
         continue;
      }
      if (q[0] == "clear") keys.clear();
      if (q[0] == "loadop" || q[0] == "loadu") keys[q[1]] = Loaded{q, 0, true};
      if (q[0] == "setgp") gps.push_back(q);
      if (q[0] != "apply" && q[0] != "expec" && q[0] != "matel" && q[0] != "run") continue;
      std::vector<std::vector<str> > pre = gps;
      if (q[0] == "run") {
         if (q.size() > 3 && q[3] != "-") {
            if (!keys.count(q[3])) continue;
            if ((q.size() < 5 || q[4] == "h") && is_prop(keys[q[3]].load[2])) continue;   // (a propagator in the place of a Hamiltonian: its own Hamiltonian keeps the session's clock)
            pre.push_back(keys[q[3]].load);
         }
      } else if (q[1][0] != 'x') {
         if (!keys.count(q[1])) continue;
         Loaded& k = keys[q[1]];
         pre.push_back(k.load);
         if (q[0] == "apply" && q[3] != "-") k.time = atoi(q[3].c_str()), k.known = true;
         if (!k.known) continue;
         if (k.time) pre.push_back({"time", q[1], std::to_string(k.time)});
      }
      ChildResult c = run_child(ref, plain, [&]() {
         str v;
         for (auto& x : pre) {
            if (x[0] == "time") GlobalOpList::Instance()[x[1]]->Clock()->TimeStep(atoi(x[2].c_str()));
            else direct(x, v);
         }
         v.clear();
         str x;
         crosscheck = &x;
         direct(q, v);
         crosscheck = NULL;
         emit("v", v);
         emit("x", x);
         return 0;
      });
      o.add(c);
      o.probes["fresh_results"]++;
      str a = e.get(fmt("v%zu", i)), b = c.get("v");
      if (c.how != ChildResult::EXIT || c.code || !same_numbers(a, b))
         o.fail("history-changes-result", fmt("op %zu %s %s: %s in a fresh process, %s after the commands before it", i, q[0].c_str(), q[1].c_str(), b.substr(0, 80).c_str(), a.substr(0, 80).c_str()));
      else if (q[0] != "apply" && q[0] != "run" && !same_numbers(a, c.get("x")))
         o.fail("wrong-matrix-element", fmt("op %zu %s %s: %s, but applied it gives %s", i, q[0].c_str(), q[1].c_str(), a.c_str(), c.get("x").c_str()));
   }
}
static Outcome exec(const Plan& p)
{
   Outcome o;
   str dir = fresh_dir("w"), ref = fresh_dir("ref");
   ChildOpts plain;
   plain.fill = p.num("fill", 0xa5);
   ChildResult s = run_child(dir, plain, [&]() {
      SaveCfg c;
      c.format = "stream";
      c.comp = "none";
      for (int i = 0; i < 3; i++) {
         c.name = "f" + std::to_string(i);
         c.spec = i < 2 ? fmt("grid:%d/g/%d", N, i * 8 + 8) : str("level:4/u/8");
         WaveFunction* w = make_wf(c.spec);
         AnyObj none;
         save_obj(c, w, none, NULL);
      }
      c.name = "pot0";
      c.spec = fmt("pot:%d/g/24", N);
      AnyObj ob = make_obj(c.spec);
      save_obj(c, NULL, ob, NULL);
      c.name = "dip0";
      c.format = "binary";
      c.spec = fmt("pot:%d/g/32", N);
      ob = make_obj(c.spec);
      save_obj(c, NULL, ob, NULL);
      c.name = "las0";
      c.format = "stream";
      c.spec = "laser:24/u/1";
      ob = make_obj(c.spec);
      ob.laser->Dt(5);
      save_obj(c, NULL, ob, NULL);
      return 0;
   });
   o.add(s);
   copy_tree(dir, ref);
   // expected answers
   ChildResult e = run_child(ref, plain, [&]() {
      for (size_t i = 0; i < p.ops.size(); i++) {
         op(i);
         str v, x = direct(p.ops[i], v);
         emit(fmt("e%zu", i), x);
         if (!v.empty()) emit(fmt("v%zu", i), v);
         if (p.ops[i][0] == "quit") break;
      }
      return 0;
   });
   o.add(e);
   if (e.how != ChildResult::EXIT || e.code) {
      o.fail("action-crashes", e.how_text());   // the action itself, performed without any server
      return o;
   }
   if (p.num("fresh")) fresh_results(p, e, ref, plain, o);
   if (!o.cls.empty()) return o;
   // the session
   ChildOpts co = plain;
   co.faults = p.faults;
   ChildResult w = run_child(dir, co, [&]() {
      Quiet* z = new Quiet;
      Client cl(p);
      delete z;
      InBuf ib(cl);
      OutBuf ob(cl);
      std::istream is(&ib);
      std::ostream os(&ob);
      str x = guarded([&]() {
         CmdHandler h(is, os);
         h.RunInteractive("");
      });
      Quiet q;
      cl.flushed = cl.out.size();
      cl.receive();
      emit("end", x.empty() ? "normal" : x);
      if (!cl.bad.empty()) emit("bad", cl.bad);
      if (cl.stuck) emit("stuck", std::to_string(cl.stuck_op));
      emit("eof", cl.eof && !cl.closed ? "1" : "0");
      if (cl.bad.empty() && cl.at < cl.out.size()) emit("extra", fmt("%zu bytes", cl.out.size() - cl.at));
      for (size_t i = 0; i < p.ops.size(); i++) {
         if (cl.done[i]) emit(fmt("a%zu", i), answer_text(cl.ans[i]));
         if (cl.sent[i]) emit(fmt("s%zu", i), "1");
      }
      return 0;
   });
   o.add(w);
   o.faultable(w);
   o.state = w.log_hash;
   if (w.how != ChildResult::EXIT || w.code) {
      o.fail(w.how == ChildResult::HANG ? "session-hangs" : "session-crashes", w.how_text());
      return o;
   }
   bool disturbed = p.num("cut", -1) >= 0 || p.num("broken", -1) >= 0;
   bool hard = false;
   for (auto& f : p.faults) hard = hard || (f.kind != "short" && f.kind != "eintr");
   if (w.has("bad") && p.num("broken", -1) < 0) {
      str b = w.get("bad");
      o.fail(b.substr(0, b.find(' ')), b.substr(b.find(' ') + 1));
      return o;
   }
   int answered = 0;
   bool failed = false, lost = false;
   for (size_t i = 0; i < p.ops.size(); i++) {
      str ex = e.get(fmt("e%zu", i), "?"), an = w.get(fmt("a%zu", i), "?");
      if (an == "?") { lost = true; continue; }
      answered++;
      if (an == "err") failed = true;
      if (an == "err" && (hard || disturbed)) break;     // later answers may depend on what failed
      if (p.ops[i][0] == "badwf") break;     // the damage may have gone unnoticed: anything but a crash
      if (p.ops[i][0] == "garbage") {
         if (an != "err") o.fail("success-for-garbage", fmt("op %zu: ", i) + an);
         break;
      }
      if (an != ex && !(hard && an == "err")) {
         o.fail(ex == "err" ? "success-for-failure" : an == "err" ? "failure-for-success" : "wrong-answer", fmt("op %zu %s: expected ", i, p.ops[i][0].c_str()) + ex.substr(0, 200) + ", answer " + an.substr(0, 200));
         return o;
      }
   }
   o.probes["answered"] += answered;
   o.probes["error_answers"] += failed;
   bool err_end = w.get("end") != "normal";
   bool quit = false;
   for (auto& q : p.ops) quit = quit || q[0] == "quit";
   bool malformed = false;
   for (auto& q : p.ops) malformed = malformed || q[0] == "garbage" || q[0] == "badwf";
   if (!disturbed && !malformed) {
      if (w.has("stuck")) o.fail("answer-missing", "the server waits for input but the answer to op " + w.get("stuck") + " has not arrived");
      if (w.has("extra")) o.fail("answer-too-many", w.get("extra") + " left over after the last answer");
      // a session may end only after an error answer, at QUIT or at the end of the connection
      if (!failed && err_end && quit) o.fail("session-ended", w.get("end"));
      if (!err_end) {
         bool q = false;
         for (size_t i = 0; i < p.ops.size() && !q; i++) q = p.ops[i][0] == "quit" && w.has(fmt("s%zu", i));
         if (!q) o.fail("session-ended", "normal end without QUIT");
      }
   }
   if (p.num("cut", -1) >= 0 && w.get("eof") == "1") o.probes["cut_sessions"]++;
   // files: only what was completely received, and complete
   std::map<str, std::vector<str> > specs;   // name -> possible contents
   std::map<str, bool> must;
   std::set<str> anything;
   for (int i = 0; i < 3; i++) specs[fmt("f%d", i)].push_back(i < 2 ? fmt("grid:%d/g/%d", N, i * 8 + 8) : str("level:4/u/8"));
   for (size_t i = 0; i < p.ops.size(); i++) {
      const std::vector<str>& q = p.ops[i];
      if (q[0] != "writewf" || !w.has(fmt("s%zu", i))) continue;
      str an = w.get(fmt("a%zu", i), "?");
      if (an == "ok") {
         specs[q[1]].clear();
         must[q[1]] = true;
      }
      if (an != "ok") {   // a failed save may have damaged what was there
         must[q[1]] = false;
         if (hard) anything.insert(q[1]);
      } else anything.erase(q[1]);
      if (an != "err" || hard) specs[q[1]].push_back(q[2] + (q[3] == "gzip" ? "!" : ""));
   }
   bool lossy = false;   // compression of stored wave functions is lossy by design
   for (auto& q : p.ops) lossy = lossy || (q[0] == "setgp" && (q[1] == "compress" || q[1] == "comptol"));
   ChildResult v = run_child(dir, plain, [&]() {
      for (auto& t : specs) {
         FileWF f;
         f.Name(t.first);
         WaveFunction* x = NULL;
         str er = guarded([&]() { x = f.LoadWaveFunctionByMeta(); });
         str got = er.empty() ? describe(x) : "error " + er;
         bool ok = anything.count(t.first) || (!must[t.first] && (hard || disturbed) && !er.empty());
         for (auto& sp : t.second) {
            bool gz = sp.back() == '!';
            str plain_spec = gz ? sp.substr(0, sp.size() - 1) : sp;
            WaveFunction* y = make_wf(plain_spec);
            str d = describe(y);
            if (d == got) ok = true;
            if ((gz || lossy) && er.empty() && d.substr(0, d.find('#')) == got.substr(0, got.find('#'))) ok = true;
         }
         if (!ok && !(t.second.empty() && !er.empty())) {
            emit("file", t.first + ": " + got);
            break;
         }
      }
      return 0;
   });
   o.add(v);
   if (v.how != ChildResult::EXIT || v.code) o.fail("stored-file-crashes", v.how_text());
   else if (v.has("file")) o.fail("stored-file-wrong", v.get("file"));
   // output of programs run by the server
   if (!hard && !disturbed && !failed && !malformed) {
      std::map<str, str> a = read_tree(dir), b = read_tree(ref);
      for (auto& t : b)
         if (t.first.compare(0, 3, "out") == 0 && (!a.count(t.first) || a[t.first] != t.second)) {
            o.fail("program-output-differs", t.first);
            break;
         }
   }
   return o;
}
static RegProp reg({"C05", gen, exec, faults, 2, 4, 8000, 200000});
