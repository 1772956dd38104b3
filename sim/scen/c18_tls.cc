// C18, sessions: two TLS peers over a simulated byte stream with damage, and impostors.
#include "../party.h"
#include <openssl/ssl.h>
namespace {
struct Suite { const char *name; int auth; bool null; int vmin; };   // auth: 1 = 2001 key, 2 = 2012 key
const Suite suites[] = { { "GOST2001-GOST89-GOST89", 1, false, TLS1_VERSION }, { "GOST2001-NULL-GOST94", 1, true, TLS1_VERSION }, { "LEGACY-GOST2012-GOST8912-GOST8912", 2, false, TLS1_VERSION }, { "IANA-GOST2012-GOST8912-GOST8912", 2, false, TLS1_VERSION }, { "GOST2012-NULL-GOST12", 2, true, TLS1_VERSION }, { "GOST2012-MAGMA-MAGMAOMAC", 2, false, TLS1_2_VERSION }, { "GOST2012-KUZNYECHIK-KUZNYECHIKOMAC", 2, false, TLS1_2_VERSION } };
enum { NSUITE = 7 };
struct Wire { Bytes fly, in; size_t pos = 0; bool eof = false, closed = false; size_t room = 1 << 20; uint64_t total = 0; };
struct Side {
    SSL *s = nullptr; Wire *rx = nullptr, *tx = nullptr; Bytes sent, got, todo; bool up = false, dead = false, shut = false, peer_closed = false; int err = 0; bool stuck_write = false; size_t cut = 0; std::string why;
};
struct W {
    Party ps[4]; SSL_CTX *ctx[2] = { nullptr, nullptr }; SSL_SESSION *sess = nullptr; Wire a, b; Side e[2]; X509 *pin[2] = { nullptr, nullptr };
    void hang() { for (auto &x : e) { SSL_free(x.s); x = Side(); } a = Wire(); b = Wire(); }
    ~W() { hang(); SSL_SESSION_free(sess); for (auto x : ctx) SSL_CTX_free(x); for (auto &p : ps) { X509_free(p.cert); EVP_PKEY_free(p.k.pk); } }
};
int w_write(BIO *o, const char *p, int n) { Side *s = (Side *)BIO_get_data(o); BIO_clear_retry_flags(o); if (s->tx->closed) return -1; size_t have = s->tx->fly.size(); if (have >= s->tx->room) { BIO_set_retry_write(o); return -1; } n = std::min<size_t>(n, s->tx->room - have); s->tx->fly.insert(s->tx->fly.end(), p, p + n); s->tx->total += n; return n; }
int w_read(BIO *o, char *p, int n) { Side *s = (Side *)BIO_get_data(o); BIO_clear_retry_flags(o); Wire *w = s->rx; size_t have = w->in.size() - w->pos; if (!have) { if (w->eof) return 0; BIO_set_retry_read(o); return -1; } n = std::min<size_t>(n, have); memcpy(p, w->in.data() + w->pos, n); w->pos += n; return n; }
long w_ctrl(BIO *, int cmd, long, void *) { return cmd == BIO_CTRL_FLUSH || cmd == BIO_CTRL_DUP ? 1 : 0; }
BIO *w_bio(Side *s) { static BIO_METHOD *m; if (!m) { m = BIO_meth_new(BIO_get_new_index() | BIO_TYPE_SOURCE_SINK, "stream"); BIO_meth_set_read(m, w_read); BIO_meth_set_write(m, w_write); BIO_meth_set_ctrl(m, w_ctrl); } BIO *o = BIO_new(m); BIO_set_data(o, s); BIO_set_init(o, 1); return o; }
int pin_cb(X509_STORE_CTX *x, void *arg) { X509 *c = X509_STORE_CTX_get0_cert(x), *want = *(X509 **)arg; return c && want && X509_cmp(c, want) == 0; }
void gen(Rng &r, Plan &p, bool th) {
    int su = r.below(NSUITE); bool clean = r.chance(1, 3), faults = !clean && r.chance(1, 4); int conns = 1 + r.below(3);
    p.add("setup", { su, (long long)r.below(2), (long long)r.below(64), (long long)r.below(2), (long long)r.below(64), (long long)r.below(16), (long long)r.below(8), (long long)(r.next() >> 40) });
    for (int k = 0; k < conns; k++) {
        p.add("connect", { (long long)r.below(2), clean ? 0 : (long long)(r.chance(1, 6) ? 1 + r.below(4) : 0), (long long)r.below(64), (long long)r.below(8) });
        int steps = 6 + r.below(th ? 80 : 30), pre = r.below(8); bool hostile = !clean && r.chance(2, 3);
        if (r.chance(1, 2)) p.add("pump", { (long long)r.below(12), (long long)(r.next() >> 40) });
        for (int i = 0; i < steps; i++) {
            int s = r.below(2);
            switch (r.below(hostile ? 18 : 14)) {
            case 0: case 1: case 2: p.add("step", { s, faults && r.chance(1, 4) ? 1 + (long long)r.below(900) : 0 }); break;
            case 3: case 4: case 5: p.add("dl", { s, (long long)r.below(12), (long long)(r.next() >> 40) }); break;
            case 6: case 7: p.add("write", { s, r.chance(1, 10) ? (long long)r.below(40000) : (long long)r.below(400), (long long)(r.next() >> 40) }); break;
            case 8: p.add("burst", { s, (long long)r.below(r.chance(1, th ? 20 : 60) ? 4300 : r.chance(1, 4) ? 150 : 12), (long long)r.below(40) }); break;
            case 9: case 10: case 11: p.add("pump", { (long long)r.below(12), (long long)(r.next() >> 40) }); break;
            case 12: p.add("room", { s, r.chance(1, 2) ? (long long)r.below(3000) : 1 << 20 }); break;
            case 13: if (r.chance(1, 3)) p.add(r.chance(1, 2) ? "renego" : "shut", { s }); break;
            default: if (i >= pre) p.add("damage", { s, (long long)r.below(7), (long long)(r.next() >> 30), (long long)(r.next() >> 40) }); break;
            }
        }
        p.add("end", { (long long)r.below(4), (long long)(r.next() >> 40) });
    }
}
void exec(const Plan &p, Ctx &c) {
    lib_engine(); W w; int su = 0; bool have = false, live = false, dirty = false, faulty = false, bad = false, mutual = false, renegs = false, can_reneg = false, midstream = false, pump_on = true; uint64_t fl = 0;
    auto nm = [&]() { return strf("%s, server %s on %s", suites[su].name, OBJ_nid2sn(ka_nid(w.ps[0].k.ka)), w.ps[0].k.cv->sn); };
    auto step = [&](int i) {
        Side &x = w.e[i]; Side &y = w.e[1 - i]; if (x.dead || !x.s) return; c.op(x.up ? i ? "client_io" : "server_io" : i ? "client_handshake" : "server_handshake"); ERR_clear_error();
        auto fail = [&](int rc, const char *what) { int e = SSL_get_error(x.s, rc); if (e == SSL_ERROR_WANT_READ || e == SSL_ERROR_WANT_WRITE) { ERR_clear_error(); return false; } if (e == SSL_ERROR_ZERO_RETURN) { x.peer_closed = true; ERR_clear_error(); return false; } x.dead = true; x.err = e; x.why = strf("%s: %d: ", what, e) + sim::err_text(); x.tx->closed = true; return true; };
        if (!x.up) {
            int rc = SSL_do_handshake(x.s); if (rc == 1) { x.up = true; c.count(SSL_session_reused(x.s) ? "handshakes_resumed" : "handshakes_completed"); } else { fail(rc, "handshake"); if (x.dead) c.count("handshakes_failed"); return; }
        }
        while (!x.todo.empty() && !x.shut) { int n = std::min<size_t>(x.todo.size(), x.cut ? x.cut : x.todo.size()); int rc = SSL_write(x.s, x.todo.data(), n); if (rc <= 0) { x.cut = n; fail(rc, "write"); break; } x.cut = 0; x.todo.erase(x.todo.begin(), x.todo.begin() + rc); }
        while (!x.dead && !x.peer_closed) {
            uint8_t b[4096]; int rc = SSL_read(x.s, b, sizeof b); if (rc <= 0) { fail(rc, "read"); break; } x.got.insert(x.got.end(), b, b + rc);
            if (x.got.size() > y.sent.size() || memcmp(x.got.data() + x.got.size() - rc, y.sent.data() + x.got.size() - rc, rc)) c.violate("altered", "%s: the %s received data its peer did not send", nm().c_str(), i ? "client" : "server");
        }
        c.mixsig(x.up * 4 + x.dead * 2 + i);
    };
    auto deliver = [&](int i, size_t n) { Wire &t = *w.e[i].tx; n = std::min(n, t.fly.size()); t.in.insert(t.in.end(), t.fly.begin(), t.fly.begin() + n); t.fly.erase(t.fly.begin(), t.fly.begin() + n); if (t.pos > 65536) { t.in.erase(t.in.begin(), t.in.begin() + t.pos); t.pos = 0; } };
    auto pump = [&](unsigned cls, uint64_t r, int rounds) {
        Rng g(r); for (int k = 0; k < rounds; k++) {
            size_t before = w.a.total + w.b.total + w.e[0].got.size() + w.e[1].got.size() + w.e[0].todo.size() + w.e[1].todo.size() + w.a.fly.size() + w.b.fly.size() + w.e[0].up + w.e[1].up + w.e[0].dead + w.e[1].dead;
            for (int q = 0; q < 2; q++) { int i = (k + q) & 1; step(i); size_t n = cls >= CH_N || cls == 0 ? w.e[i].tx->fly.size() : std::max<size_t>(1, std::min<size_t>(4000, chunk_len(cls, g.next() >> 20))) + w.e[i].tx->fly.size() / 8; deliver(i, n); c.steps++; if (w.e[i].tx->closed && w.e[i].tx->fly.empty()) w.e[i].tx->eof = true; }
            if (k > 3 && before == w.a.total + w.b.total + w.e[0].got.size() + w.e[1].got.size() + w.e[0].todo.size() + w.e[1].todo.size() + w.a.fly.size() + w.b.fly.size() + w.e[0].up + w.e[1].up + w.e[0].dead + w.e[1].dead) return true;
        } return false; };
    for (auto &o : p.ops) {
        c.steps++;
        if (o.k == "setup") {
            su = o.mod(0, NSUITE); fl = o.arg(5); w.hang(); live = false; for (auto &x : w.ctx) { SSL_CTX_free(x); x = nullptr; } SSL_SESSION_free(w.sess); w.sess = nullptr; have = true; mutual = fl & 1; can_reneg = fl & 4;
            int ka = suites[su].auth == 1 ? KA_2001 : o.mod(1, 2) ? KA_512 : KA_256; mkparty(w.ps[0], ka, o.arg(2), 1, c); mkparty(w.ps[1], suites[su].auth == 1 ? KA_2001 : o.mod(3, 2) ? KA_512 : KA_256, o.arg(4), 2, c); mkparty(w.ps[2], w.ps[0].k.ka, 0, 3, c);
            // the impostors: the certificate of a party with another private key
            for (int i = 0; i < 2; i++) {
                c.op("setup"); SSL_CTX *x = w.ctx[i] = SSL_CTX_new(i ? TLS_client_method() : TLS_server_method()); if (!x) c.violate("setup", "no TLS context: %s", sim::err_text().c_str());
                int v = suites[su].vmin == TLS1_2_VERSION || o.arg(6) % 4 < 2 ? TLS1_2_VERSION : TLS1_VERSION + o.arg(6) % 2; SSL_CTX_set_min_proto_version(x, v); SSL_CTX_set_max_proto_version(x, v); SSL_CTX_set_security_level(x, 0);
                if (SSL_CTX_set_cipher_list(x, strf("%s:@SECLEVEL=0", suites[su].name).c_str()) != 1) c.violate("setup", "cipher suite %s not available: %s", suites[su].name, sim::err_text().c_str());
                SSL_CTX_set_mode(x, SSL_MODE_ENABLE_PARTIAL_WRITE | SSL_MODE_ACCEPT_MOVING_WRITE_BUFFER); if (fl & 2) SSL_CTX_set_options(x, SSL_OP_NO_TICKET); if (fl & 8) SSL_CTX_set_options(x, SSL_OP_NO_EXTENDED_MASTER_SECRET); if (!can_reneg) SSL_CTX_set_options(x, SSL_OP_NO_RENEGOTIATION); else SSL_CTX_set_options(x, SSL_OP_ALLOW_CLIENT_RENEGOTIATION);
                SSL_CTX_set_session_id_context(x, (const uint8_t *)"sim", 3); SSL_CTX_set_cert_verify_callback(x, pin_cb, &w.pin[i]); if (i) SSL_CTX_set_verify(x, SSL_VERIFY_PEER, NULL); else if (mutual) SSL_CTX_set_verify(x, SSL_VERIFY_PEER | SSL_VERIFY_FAIL_IF_NO_PEER_CERT, NULL);
            }
            continue;
        }
        if (!have) continue;
        if (o.k == "connect") {
            w.hang(); int imp = o.arg(1) % 5; bool resume = o.arg(0) & 1; dirty = faulty = renegs = midstream = false; bad = false; live = true; int id[2] = { 0, 1 };
            w.pin[1] = w.ps[0].cert; w.pin[0] = w.ps[1].cert; w.e[0].rx = &w.a; w.e[0].tx = &w.b; w.e[1].rx = &w.b; w.e[1].tx = &w.a; c.mixsig(su * 64 + imp * 8 + resume * 4 + mutual);
            if (imp == 1 || imp == 3) bad = true; if ((imp == 2 || imp == 4) && mutual) bad = true; if (bad) resume = false;
            for (int i = 0; i < 2; i++) {
                SSL *s = w.e[i].s = SSL_new(w.ctx[i]); if (!s) c.violate("setup", "no TLS object: %s", sim::err_text().c_str()); BIO *b = w_bio(&w.e[i]); SSL_set_bio(s, b, b); if (i) SSL_set_connect_state(s); else SSL_set_accept_state(s);
                if (i && !mutual) continue;
                X509 *cert = w.ps[i].cert; EVP_PKEY *pk = w.ps[i].k.pk, *fake = nullptr;
                if (imp == 1 + i) { Party &q = w.ps[2]; if (i && w.ps[2].k.ka != w.ps[1].k.ka) mkparty(q, w.ps[1].k.ka, 0, 3, c); if (!i && q.k.ka != w.ps[0].k.ka) mkparty(q, w.ps[0].k.ka, 0, 3, c); cert = q.cert; pk = q.k.pk; c.count("fault.impostor_with_another_certificate"); }
                else if (imp == 3 + i) { // right certificate, wrong private key
                    const Key &k = w.ps[i].k; fake = pub_import(k.ka, *k.cv, k.Q); Bn d = Bn::be(derive_bytes(p.seed, 0x18f00000 + o.arg(2), 30)) ; EC_KEY *ek = (EC_KEY *)EVP_PKEY_get0(fake); EC_KEY_set_private_key(ek, d.b); pk = fake; c.count("fault.impostor_without_the_key"); }
                if (SSL_use_certificate(s, cert) != 1 || SSL_use_PrivateKey(s, pk) != 1) { if (!fake) c.violate("setup", "key refused: %s", sim::err_text().c_str()); bad = false; live = false; } EVP_PKEY_free(fake);
            }
            if (resume && w.sess) { SSL_set_session(w.e[1].s, w.sess); }
            if (!live) w.hang();
            continue;
        }
        if (!live) continue; int i = o.mod(0, 2); Side &x = w.e[i];
        if (o.k == "step") {
            long long f = o.arg(1); bool rf = f % 4 == 3; bool was = x.dead;
            if (f) { if (rf) { sim::rnd.calls = 0; sim::rnd.failed = 0; sim::rnd.fail_from = f / 4 % 4; sim::rnd.fail_count = 1000; } else sim::Faults::arm(1 + f % 3, f / 4, 1); }
            step(i); if (f) { bool fired = rf ? sim::rnd.failed > 0 : sim::Faults::fired() > 0; sim::Faults::disarm(); sim::rnd.fail_from = -1; sim::rnd.failed = 0; if (fired) { faulty = true; c.count(rf ? "fault.random_source" : "fault.allocation_or_call"); } (void)was; }
        } else if (o.k == "dl") deliver(i, o.arg(1) >= CH_N - 1 ? 1 << 20 : chunk_len(o.mod(1, CH_N), o.arg(2)));
        else if (o.k == "write" || o.k == "burst") {
            size_t n = o.k == "write" ? 1 + o.arg(1) % 50000 : 1 + o.arg(2) % 64; int times = o.k == "write" ? 1 : 1 + o.arg(1) % 5000; if (x.shut || x.sent.size() + n * times > 400000) continue;
            for (int t = 0; t < times; t++) { // a burst: one record each
                Bytes d = mkdata(p.seed, 0x18e00000 + o.arg(2) + t + x.sent.size() * 77, n, (o.arg(2) + t) % DK_N); x.sent = cat(x.sent, d); x.todo = cat(x.todo, d);
                if (times > 1 && x.up && !x.dead) { size_t old = x.todo.size(); step(i); deliver(i, 1 << 20); if (t % 16 == 15) { step(1 - i); deliver(1 - i, 1 << 20); } if (x.todo.size() >= old) break; c.count("records_in_bursts"); }
                else if (times > 1) break;
            }
        } else if (o.k == "pump") pump(o.arg(0) % 13, o.arg(1), 60);
        else if (o.k == "room") x.tx->room = 1 + o.arg(1) % (1 << 20);
        else if (o.k == "renego") { if (x.up && !x.dead && can_reneg && x.todo.empty()) { c.op("renegotiate"); if (SSL_renegotiate(x.s) == 1) { c.count("renegotiations"); renegs = true; } sim::err_text(); } }
        else if (o.k == "shut") { if (x.up && !x.dead && x.todo.empty() && !renegs) { c.op("shutdown"); SSL_shutdown(x.s); x.shut = true; sim::err_text(); c.count("shutdowns"); } }
        else if (o.k == "damage") {
            Wire &t = *x.tx; uint64_t r = o.arg(2); if (t.fly.empty()) { if (o.arg(1) == 6 && x.up) { t.eof = true; dirty = true; c.count("fault.cut"); } continue; } size_t at = r % t.fly.size(); c.mixsig(0xda00 + o.mod(1, 7));
            switch (o.mod(1, 7)) {
            case 0: t.fly[at] ^= 1 << (r >> 20) % 8; c.count("fault.bit_flip"); break;
            case 1: t.fly.erase(t.fly.begin() + at, t.fly.begin() + std::min(t.fly.size(), at + 1 + (r >> 20) % 40)); c.count("fault.loss"); break;
            case 2: { Bytes d = derive_bytes(p.seed, r, 1 + r % 30); t.fly.insert(t.fly.begin() + at, d.begin(), d.end()); c.count("fault.insertion"); break; }
            case 3: { Bytes d(t.fly.begin() + at, t.fly.begin() + std::min(t.fly.size(), at + 1 + (r >> 20) % 300)); t.fly.insert(t.fly.begin() + at, d.begin(), d.end()); c.count("fault.duplication"); break; }
            case 4: { // whole records: replay or swap
                std::vector<std::pair<size_t, size_t>> rec; for (size_t q = 0; q + 5 <= t.fly.size();) { size_t l = 5 + (t.fly[q + 3] << 8 | t.fly[q + 4]); if (q + l > t.fly.size()) break; rec.push_back({ q, l }); q += l; }
                if (rec.empty()) continue; auto a = rec[r % rec.size()]; Bytes d(t.fly.begin() + a.first, t.fly.begin() + a.first + a.second);
                if ((r >> 30) & 1) { t.fly.insert(t.fly.begin() + a.first, d.begin(), d.end()); c.count("fault.record_replay"); } else { t.fly.erase(t.fly.begin() + a.first, t.fly.begin() + a.first + a.second); if ((r >> 31) & 1) { t.fly.insert(t.fly.end(), d.begin(), d.end()); c.count("fault.record_reorder"); } else c.count("fault.record_loss"); } break; }
            case 5: { Bytes d = derive_bytes(p.seed, r, std::min<size_t>(t.fly.size() - at, 1 + (r >> 20) % 60)); std::copy(d.begin(), d.end(), t.fly.begin() + at); c.count("fault.overwrite"); break; }
            case 6: t.fly.resize(at); t.closed = true; c.count("fault.cut"); break;
            }
            dirty = true;
        } else if (o.k == "end") {
            for (auto &y : w.e) y.tx->room = 1 << 20; bool done = pump(o.arg(0) ? 0 : 1 + o.arg(1) % 11, o.arg(1), 20000); Side &S = w.e[0], &C = w.e[1]; c.nontrivial = true;
            if (!done) c.violate("no-progress", "%s: the session neither finished nor came to rest", nm().c_str());
            bool undist = !dirty && !faulty;
            if (bad) { // someone is not who they claim to be
                int honest_ok = w.pin[1] && C.up && S.up; if (undist && honest_ok) c.violate("wrong-key", "%s: a handshake with an impostor was completed by both sides", nm().c_str());
                if (S.got.size() || C.got.size()) c.violate("wrong-key", "%s: data was exchanged with an impostor", nm().c_str()); c.count("impostors_refused");
            } else if (undist) {
                if (!S.up || !C.up) c.violate("refused", "%s%s: undisturbed handshake failed: server %s client %s", nm().c_str(), mutual ? ", client with certificate" : "", S.why.c_str(), C.why.c_str());
                bool closing = S.shut || C.shut;
                if ((S.dead || C.dead) && !closing && !renegs) c.violate("refused", "%s: undisturbed session broke: server %s client %s", nm().c_str(), S.why.c_str(), C.why.c_str());
                if (!closing && !renegs) { if (S.got != C.sent) c.violate("lost", "%s: %zu of %zu bytes reached the server", nm().c_str(), S.got.size(), C.sent.size()); if (C.got != S.sent) c.violate("lost", "%s: %zu of %zu bytes reached the client", nm().c_str(), C.got.size(), S.sent.size()); }
                c.count("sessions_undisturbed"); c.count("bytes_delivered", S.got.size() + C.got.size());
                if (!S.dead && !C.dead) { for (auto &y : w.e) SSL_set_shutdown(y.s, SSL_SENT_SHUTDOWN | SSL_RECEIVED_SHUTDOWN); SSL_SESSION_free(w.sess); w.sess = SSL_get1_session(C.s); }
            } else c.count(S.dead || C.dead ? "sessions_broken_off" : "sessions_survived");
            c.log("end: server up %d dead %d got %zu, client up %d dead %d got %zu", S.up, S.dead, S.got.size(), C.up, C.dead, C.got.size()); w.hang(); live = false;
        }
        if (live && (o.k == "step" || o.k == "pump" || o.k == "write")) for (auto &y : w.e) if (!suites[su].null && y.up) { // nothing readable on the wire
            const Bytes &f = y.tx->fly; for (size_t q = 0; q + 24 <= y.sent.size() && q < 4000; q += 977) { bool flat = true; for (int z = 1; z < 24; z++) flat &= y.sent[q + z] == y.sent[q]; if (flat) continue; auto it = std::search(f.begin(), f.end(), y.sent.begin() + q, y.sent.begin() + q + 24); if (it != f.end()) c.violate("readable", "%s: application data in the clear on the wire", nm().c_str()); }
        }
    }
}
RegScenario s2({ "C18", "sessions", 2, gen, exec, true });
}
