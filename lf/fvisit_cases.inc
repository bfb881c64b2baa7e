// Connections to the coordinator that must be rejected: every malformed request of a list, before, while and after the federates join.
#include "fvisit.h"
struct Visit { std::string bytes; int cause; bool close_early; std::string text; }; // cause -1: no reply, just the end of the connection
static std::vector<Visit> vcases;
struct VRun { int mode; int n; int pick[4]; int steps; std::string got[64]; long res[64]; bool done; int proc; };
static VRun VR;
static std::string join_request(int fed, const std::string& id) { std::string s; s += (char)1; s += (char)(fed & 255); s += (char)(fed >> 8); s += (char)id.size(); return s + id; }
static std::string peer_request(int fed, const std::string& id) { std::string s = join_request(fed, id); s[0] = 16; return s; }
static void make_cases(int mode) {
  vcases.clear();
  int nf = W->nfed;
  if (mode >= 4) { // connections to a federate that waits for its peers; the number of federates is a constant of its program
    nf = 3;
    for (int t = 0; t < 256; t++) if (t != 16) vcases.push_back({std::string(1, (char)t) + std::string("\0\0\3", 3), 5, false, "message type " + std::to_string(t)});
  }
  for (int t = 0; t < 256 && mode < 4; t++) if (t != 1) vcases.push_back({std::string(1, (char)t) + std::string("\0\0\3", 3), mode == 3 ? 1 : t == 16 || t == 18 ? 5 : t == 100 ? 7 : 4, false, "message type " + std::to_string(t)});
  std::string ids[] = {"fed", "", "f", "fe", "fedx", "Fed", "fex", "xed", std::string("fed\0", 4), std::string("fe\0", 3), std::string("\0", 1), "fed fed", std::string(255, 'a'), "fed" + std::string(252, 'x')};
  int nums[] = {0, 1, nf - 1, nf, nf + 1, 255, 256, 257, 32767, 32768, 65535};
  for (auto& id : ids) for (int m : nums) {
    int cause = mode == 3 ? 1 : id != "fed" ? 1 : m >= nf ? 3 : 2;
    if (mode != 3 && cause == 2 && !((mode == 2 || mode == 5) && m == 0)) continue; // this one may join
    vcases.push_back({mode >= 4 ? peer_request(m, id) : join_request(m, id), cause, false, "federate " + std::to_string(m) + " of a federation with the identity '" + id + "' of " + std::to_string(id.size()) + " characters"});
  }
  std::string good = mode >= 4 ? peer_request(nf - 1, "fed") : join_request(nf - 1, "fed");
  for (size_t l = 0; l < good.size(); l++) vcases.push_back({good.substr(0, l), mode == 3 ? 1 : -1, true, "the first " + std::to_string(l) + " bytes of a join request"});
  std::string longer = mode >= 4 ? peer_request(0, "longidentity") : join_request(0, "longidentity");
  for (size_t l = 4; l < longer.size(); l += 4) vcases.push_back({longer.substr(0, l), mode == 3 ? 1 : -1, true, "the first " + std::to_string(l) + " bytes of a join request of another federation"});
}
#ifdef AUTH
#include "fauth.inc"
#else
static bool auth_next(int, struct visit_step*) { return false; }
static bool auth_judge() { return true; }
static void make_attacks(int) {}
static uint64_t rand_calls;
#endif
static void visit_setup() {
  rand_calls = 0;
  VR = VRun(); VR.mode = (int)mc_argi("visit", 0); VR.n = (int)mc_argi("visits", 1); VR.proc = -1;
  if (!VR.mode) return;
  make_cases(VR.mode); make_attacks(VR.mode);
  VR.proc = mc_spawn("visitor", visit_main, nullptr);
}
// steps: wait; then for each connection: choose, connect, send, receive, close
extern "C" void hx_visit_next(int i, struct visit_step* s) {
  VR.steps = i;
  if (auth_next(i, s)) return;
  if (i == 0) { s->op = VS_WAIT; s->arg = mc_cfg.start_time + mc_argi("vat", 0) * 1000000; return; }
  int c = (i - 1) / 4, k = (i - 1) % 4;
  if (c >= VR.n) { s->op = VS_END; VR.done = true; return; }
  if (k == 0) { int lo = (int)mc_argi("vlo", 0), step = (int)mc_argi("vstep", 1); int m = ((int)vcases.size() - lo + step - 1) / step; VR.pick[c] = lo + step * mc_choose(m, true, "visit"); mc_logf("visitor: %s", vcases[VR.pick[c]].text.c_str()); s->op = VS_CONNECT; s->arg = VR.mode >= 4 ? mc_listening_port(O->in[mc_argi("vfed", 1)].proc) : 15045; return; }
  Visit& v = vcases[VR.pick[c]];
  if (k == 1) { s->op = VS_SEND; s->len = (int)v.bytes.size(); memcpy(s->data, v.bytes.data(), v.bytes.size()); return; }
  if (k == 2) { if (v.close_early) { s->op = VS_CLOSE; return; } s->op = VS_RECV; s->len = 100; return; }
  if (v.close_early) { s->op = VS_WAIT; s->arg = 0; return; }
  s->op = VS_CLOSE;
}
extern "C" void hx_visit_got(int i, const unsigned char* d, long n) { if (i < 64) { VR.res[i] = n; VR.got[i] = n > 0 ? std::string((const char*)d, n) : ""; } }
static bool visit_judge() {
  if (!VR.mode) return true;
  if (VR.mode >= 6) return auth_judge();
  int code = -1;
  if (!VR.done || !mc_proc_exited(VR.proc, &code)) { mc_fail("the visitor does not finish"); return false; }
  for (int c = 0; c < VR.n; c++) {
    Visit& v = vcases[VR.pick[c]]; int b = 1 + 4 * c;
    if (VR.res[b] < 0) { mc_count("visitors not connected"); continue; } // before or after the coordinator listens
    if (v.close_early) continue;
    if (VR.got[b + 2].empty() && VR.mode == 3) { mc_count("visitors not answered"); continue; } // the coordinator has ended meanwhile
    std::string want = std::string(1, (char)0) + std::string(1, (char)v.cause);
    if (VR.got[b + 2] != want && !(VR.mode <= 2 && VR.got[b + 2] == std::string("\0\1", 2))) { // or all have joined already
      char t[64] = ""; size_t o = 0; for (unsigned char x : VR.got[b + 2]) if (o < 40) o += snprintf(t + o, 8, "%d ", x); mc_fail("a connection as %s receives the reply %s(%zu bytes) instead of a rejection with cause %d", v.text.c_str(), t, VR.got[b + 2].size(), v.cause); return false; }
    mc_count("rejected connections");
  }
  return true;
}
