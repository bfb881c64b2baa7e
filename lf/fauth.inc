// Authentication: a visitor that knows the key and departs from the handshake in one way, as a federate (mode 6) or as the coordinator (mode 7).
#include <openssl/hmac.h>
#include <openssl/evp.h>
static uint64_t rand_calls;
static std::string mac(const std::string& key, const std::string& text) { unsigned char t[64]; unsigned n = 0; HMAC(EVP_sha256(), key.data(), (int)key.size(), (const unsigned char*)text.data(), text.size(), t, &n); return std::string((char*)t, n); }
// With --set zero=1, challenges are chosen so that their authentication code begins with a zero byte.
extern "C" int RAND_bytes(unsigned char* b, int n) {
  do { rand_calls++; for (int i = 0; i < n; i++) b[i] = (unsigned char)(mc_hash(rand_calls * 1000 + i, 77) >> 8); }
  while (mc_argi("zero", 0) && n == 8 && mac("fed", (VR.mode == 7 ? std::string("\x65\0\0", 3) : std::string("\x66")) + std::string((char*)b, 8))[0] != 0);
  return 1;
}
struct Attack { int kind, at, x; std::string key; std::string text; };
enum { AT_NONE, AT_ALTER, AT_CUT, AT_KEY, AT_OLD, AT_TYPE, AT_REFLECT, AT_EXTRA, AT_PLAIN, AT_CUT_HELLO, AT_ALTER_HELLO, AT_SKIP, AT_ZERO, AT_ID, AT_NONCE, AT_FIRST };
static std::vector<Attack> acases;
static const int HELLO = 11, RTIRESP = 41, FEDRESP = 33;
static void make_attacks(int mode) {
  acases.clear();
  auto add = [](int k, int a, int x, const std::string& key, const std::string& t) { acases.push_back({k, a, x, key, t}); };
  int len = mode == 6 ? FEDRESP : RTIRESP;
  if (mode == 7) add(AT_NONE, 0, 0, "fed", "the right response");
  for (int i = 0; i < len; i++) { if (mode == 7 && i >= 1 && i <= 8) continue; for (int x : {1, 16, 128, 255}) add(AT_ALTER, i, x, "fed", "a response with byte " + std::to_string(i) + " altered"); }
  for (int i = 0; i < len; i++) add(AT_CUT, i, 0, "fed", "the first " + std::to_string(i) + " bytes of a response");
  for (std::string k : {"", "f", "fe", "fedx", "Fed", "fex", "xed", "fed fed"}) add(AT_KEY, 0, 0, k, "a response for the federation identity '" + k + "'");
  add(AT_KEY, 0, 0, std::string(255, 'f'), "a response for a long federation identity");
  add(AT_OLD, 0, 0, "fed", "a response to an earlier challenge");
  add(AT_TYPE, 0, 0, "fed", "a response of the other role");
  add(AT_REFLECT, 0, 0, "fed", "a response with the other party's code");
  add(AT_EXTRA, 0, 0, "fed", "a response over more than the challenge");
  add(AT_PLAIN, 0, 0, "fed", "a response over nothing");
  add(AT_ZERO, 0, 0, "fed", "a response with a code of zeros");
  if (mode == 7) { add(AT_ID, 1, 0, "fed", "a response for federate 1"); add(AT_ID, 256, 0, "fed", "a response for federate 256"); for (int t : {0, 4, 25, 100, 102, 255}) add(AT_FIRST, t, 0, "fed", "a message of type " + std::to_string(t)); }
  if (mode == 6) {
    for (int i = 0; i < HELLO; i++) add(AT_CUT_HELLO, i, 0, "fed", "the first " + std::to_string(i) + " bytes of the opening message");
    for (int x : {1, 2, 4, 128, 255}) add(AT_ALTER_HELLO, 0, x, "fed", "an opening message of another type");
    add(AT_SKIP, 0, 0, "fed", "a join request without authentication");
    add(AT_SKIP, 1, 0, "fed", "a response without a challenge");
  }
}
static std::string id2(int k) { return std::string(1, (char)(k & 255)) + std::string(1, (char)(k >> 8)); }
static std::string my_nonce(int c) { return std::string("nonce") + (char)('0' + c) + "xy"; }
static std::string hello(int c) { return std::string(1, (char)100) + id2(W->nfed - 1) + my_nonce(c); }
static std::string fed_response(const Attack& a, const std::string& rti, const std::string& old_nonce, int c) { // rti: the coordinator's message
  std::string nonce = rti.size() >= 9 ? rti.substr(1, 8) : std::string(8, 0), tag = mac(a.key, std::string(1, (char)102) + nonce);
  if (a.kind == AT_OLD) tag = mac(a.key, std::string(1, (char)102) + old_nonce);
  if (a.kind == AT_TYPE) tag = mac(a.key, std::string(1, (char)101) + nonce);
  if (a.kind == AT_REFLECT) tag = rti.size() >= 41 ? rti.substr(9, 32) : std::string(32, 0);
  if (a.kind == AT_EXTRA) tag = mac(a.key, std::string(1, (char)102) + id2(W->nfed - 1) + nonce);
  if (a.kind == AT_PLAIN) tag = mac(a.key, "");
  if (a.kind == AT_ZERO) tag = std::string(32, 0);
  std::string m = std::string(1, (char)102) + tag;
  if (a.kind == AT_ALTER) m[a.at] ^= (char)a.x;
  if (a.kind == AT_CUT) m.resize(a.at);
  return m;
}
static std::string rti_response(const Attack& a, const std::string& hi) {
  std::string nonce = hi.size() >= 11 ? hi.substr(3, 8) : std::string(8, 0), id = hi.size() >= 3 ? hi.substr(1, 2) : id2(0), tag = mac(a.key, std::string(1, (char)101) + id + nonce);
  if (a.kind == AT_OLD) tag = mac(a.key, std::string(1, (char)101) + id + "earlier!");
  if (a.kind == AT_TYPE) tag = mac(a.key, std::string(1, (char)102) + nonce);
  if (a.kind == AT_REFLECT) tag = (nonce + nonce + nonce + nonce);
  if (a.kind == AT_EXTRA) tag = mac(a.key, std::string(1, (char)101) + nonce);
  if (a.kind == AT_PLAIN) tag = mac(a.key, "");
  if (a.kind == AT_ZERO) tag = std::string(32, 0);
  if (a.kind == AT_ID) tag = mac(a.key, std::string(1, (char)101) + id2(a.at) + nonce);
  std::string m = std::string(1, (char)101) + "coordnon" + tag;
  if (a.kind == AT_ALTER) m[a.at] ^= (char)a.x;
  if (a.kind == AT_CUT) m.resize(a.at);
  if (a.kind == AT_FIRST) { m[0] = (char)a.at; m[1] = 7; }
  return m;
}
static std::string got_of(int i) { return i >= 0 && i < 64 ? VR.got[i] : ""; }
// as a federate: wait; two connections of which the first only fetches a challenge; connect, hello, receive, response, join, receive, close
static bool auth_next(int i, struct visit_step* s) {
  if (VR.mode < 6) return false;
  auto send = [&](const std::string& m) { s->op = VS_SEND; s->len = (int)m.size(); memcpy(s->data, m.data(), m.size()); };
  auto pick = [&] { int lo = (int)mc_argi("vlo", 0), st = (int)mc_argi("vstep", 1), m = ((int)acases.size() - lo + st - 1) / st; VR.pick[0] = lo + st * mc_choose(m, true, "attack"); mc_logf("visitor: %s", acases[VR.pick[0]].text.c_str()); };
  s->op = VS_WAIT; s->arg = 0;
  VR.steps = i;
  if (VR.mode == 6) {
    if (i == 0) { s->arg = mc_cfg.start_time + mc_argi("vat", 0) * 1000000; pick(); return true; }
    const Attack& a = acases[VR.pick[0]];
    switch (i) {
    case 1: s->op = VS_CONNECT; s->arg = 15045; return true;
    case 2: send(hello(0)); return true;
    case 3: s->op = VS_RECV; s->len = RTIRESP; return true;
    case 4: { Attack bad{AT_ZERO, 0, 0, "fed", ""}; send(fed_response(bad, got_of(3), "", 0)); return true; }
    case 5: s->op = VS_RECV; s->len = 100; return true;
    case 6: s->op = VS_CLOSE; return true;
    case 7: s->op = VS_CONNECT; s->arg = 15045; return true;
    case 8:
      if (a.kind == AT_SKIP) { VR.got[63] = a.at == 0 ? "skip" : "resp"; std::string m = a.at == 0 ? join_request(W->nfed - 1, "fed") : fed_response({AT_NONE, 0, 0, "fed", ""}, got_of(3), "", 0); m.resize(64, 0); send(m); return true; }
      { std::string h = hello(1); if (a.kind == AT_CUT_HELLO) h.resize(a.at); if (a.kind == AT_ALTER_HELLO) h[0] ^= (char)a.x; send(h); return true; }
    case 9: if (a.kind == AT_CUT_HELLO) { s->op = VS_CLOSE; return true; } s->op = VS_RECV; s->len = RTIRESP; return true;
    case 10: if (a.kind == AT_CUT_HELLO || a.kind == AT_SKIP || a.kind == AT_ALTER_HELLO) return true; send(fed_response(a, got_of(9), got_of(3).size() >= 9 ? got_of(3).substr(1, 8) : "", 1)); return true;
    case 11: if (a.kind == AT_CUT_HELLO || a.kind == AT_SKIP || a.kind == AT_ALTER_HELLO) return true; if (a.kind == AT_CUT) { s->op = VS_CLOSE; return true; } send(join_request(W->nfed - 1, "fed")); return true;
    case 12: if (a.kind == AT_CUT || a.kind == AT_CUT_HELLO) return true; s->op = VS_RECV; s->len = 2; return true;
    case 13: if (a.kind == AT_CUT || a.kind == AT_CUT_HELLO) return true; s->op = VS_CLOSE; return true;
    }
    s->op = VS_END; VR.done = true; return true;
  }
  if (i == 0) { pick(); return true; }
  const Attack& a = acases[VR.pick[0]];
  switch (i) {
  case 1: s->op = VS_LISTEN; s->arg = 15045; return true;
  case 2: s->op = VS_RECV; s->len = HELLO; return true;
  case 3: send(rti_response(a, got_of(2))); return true;
  case 4: if (a.kind == AT_CUT) { s->op = VS_CLOSE; return true; } s->op = VS_RECV; s->len = a.kind == AT_NONE ? FEDRESP : 100; return true;
  case 5: if (a.kind == AT_CUT) return true; s->op = VS_CLOSE; return true;
  }
  s->op = VS_END; VR.done = true; return true;
}
static bool auth_judge() {
  const Attack& a = acases[VR.pick[0]];
  int code = -1;
  if (!VR.done) { mc_fail("the visitor does not finish"); return false; }
  if (VR.mode == 6) {
    if (VR.res[1] < 0 || VR.res[7] < 0) { mc_count("visitors not connected"); return true; }
    std::string r1 = got_of(3), r2 = got_of(9);
    if (r1.size() == RTIRESP) {
      if (r1[0] != 101 || r1.substr(9) != mac("fed", std::string(1, (char)101) + id2(W->nfed - 1) + my_nonce(0))) { mc_fail("the coordinator does not prove knowledge of the federation identity"); return false; }
      mc_count("coordinator proofs verified");
      if (got_of(5) != std::string("\0\6", 2)) { mc_fail("a response with a code of zeros is not rejected (reply of %zu bytes)", got_of(5).size()); return false; }
    }
    if (r2.size() == RTIRESP) {
      if (r2[0] != 101 || r2.substr(9) != mac("fed", std::string(1, (char)101) + id2(W->nfed - 1) + my_nonce(1))) { mc_fail("the coordinator does not prove knowledge of the federation identity"); return false; }
      if (r1.size() == RTIRESP && r1.substr(1, 8) == r2.substr(1, 8)) { mc_fail("the coordinator repeats its challenge"); return false; }
    }
    for (int k : {9, 12}) for (unsigned char ch : got_of(k)) if (k == 12 && ch == 255) { mc_fail("the coordinator admits a federate after %s", a.text.c_str()); return false; }
    if (r2.size() && (unsigned char)r2[0] == 255) { mc_fail("the coordinator admits a federate after %s", a.text.c_str()); return false; }
    if (r2.size() == RTIRESP && a.kind != AT_CUT && a.kind != AT_CUT_HELLO && !(a.kind == AT_ALTER && a.at == 0) && got_of(12) != std::string("\0\6", 2)) { mc_fail("no rejection follows %s (reply of %zu bytes)", a.text.c_str(), got_of(12).size()); return false; }
    mc_count("attacks on the coordinator");
    return true;
  }
  // the only federate faces a coordinator that is not one
  std::string hi = got_of(2), r = got_of(4);
  if (hi.size() != HELLO || (unsigned char)hi[0] != 100 || hi.substr(1, 2) != id2(0)) { mc_fail("the federate opens with %zu bytes", hi.size()); return false; }
  if (a.kind == AT_NONE) {
    if (r != std::string(1, (char)102) + mac("fed", std::string(1, (char)102) + "coordnon")) { mc_fail("the federate does not prove knowledge of the federation identity (%zu bytes)", r.size()); return false; }
    mc_count("federate proofs verified");
  } else if (!r.empty() && r != std::string("\0\6", 2)) { mc_fail("the federate goes on after %s from the coordinator (%zu bytes)", a.text.c_str(), r.size()); return false; }
  if (a.kind != AT_NONE && (!mc_proc_exited(O->in[0].proc, &code) || code == 0 || code > 1)) { mc_fail("the federate %s after %s from the coordinator", code < 0 ? "does not exit" : "exits normally or abnormally", a.text.c_str()); return false; }
  for (int x = 0; x < W->base.nreactor; x++) if (!O->in[0].recs[x].empty()) { mc_fail("the federate executes reactions after %s from the coordinator", a.text.c_str()); return false; }
  mc_count("attacks on a federate");
  return true;
}
