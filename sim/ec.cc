#include "ec.h"
#include "ref_curves.h"
static BN_CTX *bc() { static BN_CTX *c[16]; BN_CTX *&x = c[sim::tid]; if (!x) x = BN_CTX_new(); return x; }
Bn operator+(const Bn &a, const Bn &b) { Bn r; BN_add(r.b, a.b, b.b); return r; }
Bn operator-(const Bn &a, const Bn &b) { Bn r; BN_sub(r.b, a.b, b.b); return r; }
Bn operator*(const Bn &a, const Bn &b) { Bn r; BN_mul(r.b, a.b, b.b, bc()); return r; }
Bn operator%(const Bn &a, const Bn &b) { Bn r; BN_nnmod(r.b, a.b, b.b, bc()); return r; }
Bn modinv(const Bn &a, const Bn &q) { Bn r; BN_mod_inverse(r.b, a.b, q.b, bc()); return r; }
static EC_POINT *topt(const EC_GROUP *g, const Pt &P) {
    EC_POINT *p = EC_POINT_new(g);
    if (P.inf) EC_POINT_set_to_infinity(g, p);
    else if (EC_POINT_set_affine_coordinates(g, p, P.x.b, P.y.b, bc()) != 1) { EC_POINT_free(p); return NULL; }
    return p;
}
static Pt frompt(const EC_GROUP *g, const EC_POINT *p) {
    Pt P; if (!p || EC_POINT_is_at_infinity(g, p)) return P;
    P.inf = false; EC_POINT_get_affine_coordinates(g, p, P.x.b, P.y.b, bc()); return P;
}
// libcrypto blinds generic multiplications; the reference does not draw on the simulated random source
struct OwnRand { sim::RandState s; OwnRand() : s(sim::rnd) { sim::rnd = sim::RandState(); } ~OwnRand() { sim::rnd = s; } };
Pt Curve::mul(const Bn &k, const Pt &P) const {
    OwnRand own;
    EC_POINT *a = topt(g, P), *r = EC_POINT_new(g);
    if (a && EC_POINT_mul(g, r, NULL, a, k.b, bc()) != 1) EC_POINT_set_to_infinity(g, r);
    Pt R = a ? frompt(g, r) : Pt(); EC_POINT_free(a); EC_POINT_free(r); ERR_clear_error(); return R;
}
Pt Curve::mulg(const Bn &k) const { return mul(k, G); }
Pt Curve::add(const Pt &A, const Pt &B) const {
    EC_POINT *a = topt(g, A), *b = topt(g, B), *r = EC_POINT_new(g);
    EC_POINT_add(g, r, a, b, bc());
    Pt R = frompt(g, r); EC_POINT_free(a); EC_POINT_free(b); EC_POINT_free(r); return R;
}
bool Curve::on(const Pt &P) const { EC_POINT *a = topt(g, P); bool r = a && EC_POINT_is_on_curve(g, a, bc()) == 1; EC_POINT_free(a); ERR_clear_error(); return r; }
const Curve &curve(int i) {
    static Curve *cs[N_CURVES];
    i = (unsigned)i % N_CURVES;
    if (!cs[i]) {
        const CurveData &d = curve_data[i]; Curve *c = new Curve(); Bn a, b;
        c->sn = d.sn; c->nid = OBJ_sn2nid(d.sn); c->bits = d.bits; c->len = d.bits / 8; c->h = d.h;
        BN_hex2bn(&a.b, d.a); BN_hex2bn(&b.b, d.b); BN_hex2bn(&c->p.b, d.p); BN_hex2bn(&c->q.b, d.q);
        c->G.inf = false; BN_hex2bn(&c->G.x.b, d.x); BN_hex2bn(&c->G.y.b, d.y);
        c->g = EC_GROUP_new_curve_GFp(c->p.b, a.b, b.b, bc());
        EC_POINT *G = topt(c->g, c->G); Bn h(d.h);
        EC_GROUP_set_generator(c->g, G, c->q.b, h.b); EC_POINT_free(G);
        cs[i] = c;
    }
    return *cs[i];
}
const Curve *curve_by_nid(int nid) { for (int i = 0; i < N_CURVES; i++) if (OBJ_sn2nid(curve_data[i].sn) == nid) return &curve(i); return nullptr; }
namespace ref {
Bn ec_e(const Curve &c, const Bytes &dgst) { Bn e = Bn::le(dgst) % c.q; return e.zero() ? Bn(1) : e; }
Bytes ec_sign(const Curve &c, const Bn &d, const Bytes &dgst, const Bn &k) {
    if (k.zero()) return {};
    Pt C = c.mulg(k); if (C.inf) return {};
    Bn r = C.x % c.q; if (r.zero()) return {};
    Bn s = (r * d + k * ec_e(c, dgst)) % c.q; if (s.zero()) return {};
    return cat(s.tobe(c.len), r.tobe(c.len));
}
bool ec_verify(const Curve &c, const Pt &Q, const Bytes &dgst, const Bytes &sig) {
    if (sig.size() != 2u * c.len) return false;
    Bn s = Bn::be(sub(sig, 0, c.len)), r = Bn::be(sub(sig, c.len, c.len));
    if (s.zero() || r.zero() || !(s < c.q) || !(r < c.q)) return false;
    Bn v = modinv(ec_e(c, dgst), c.q), z1 = s * v % c.q, z2 = (c.q - r) * v % c.q;
    Pt C = c.add(c.mulg(z1), c.mul(z2, Q));
    return !C.inf && C.x % c.q == r;
}
std::vector<std::pair<std::string, Bytes>> *trace = nullptr;
Bytes vko(const Curve &c, const Bn &d, const Pt &Q, const Bytes &ukm, int md) {
    Bn k = Bn::le(ukm) * d % c.q;
    Pt P = c.mul(k * Bn(c.h), Q); if (P.inf) return {};
    Bytes x = c.pubLE(P);
    Bytes r = md == 94 ? gost94(x) : streebog(md, x);
    if (trace) { trace->push_back({ "shared-point", x }); trace->push_back({ "agreed-key", r }); }
    return r;
}
Bytes keg(const Curve &c, const Bn &d, const Pt &Q, const Bytes &h, bool k512) {
    Bytes u(h.rend() - 16, h.rend()); bool z = true; for (auto b : u) z &= !b;
    if (z) { u.assign(16, 0); u[0] = 1; }
    Bytes k = vko(c, d, Q, u, k512 ? 512 : 256);
    if (k.empty() || k512) return k;
    k = kdftree(k, "kdf tree", sub(h, 16, 8), 64);
    if (trace) trace->push_back({ "export-keys", k });
    return k;
}
static Bytes HX(const char *s) { Bytes b; for (; s[0] && s[1]; s += 2) { unsigned v; sscanf(s, "%2x", &v); b.push_back(v); } return b; }
std::string ec_selftest() {
    std::string f;
    for (int i = 0; i < N_CURVES; i++) {
        const Curve &c = curve(i);
        if (c.nid == NID_undef) f += strf("%s unknown; ", c.sn);
        if (BN_check_prime(c.p.b, bc(), NULL) != 1 || BN_check_prime(c.q.b, bc(), NULL) != 1) f += strf("%s not prime; ", c.sn);
        if (!c.on(c.G) || !c.mulg(c.q).inf || c.mulg(c.q - Bn(1)).inf) f += strf("%s generator; ", c.sn);
    }
    // GOST R 34.10-2012 A.1 (test curve, 256 bit)
    const Curve &c = curve(0); Bn d, k, e; Bytes dg, sg;
    BN_hex2bn(&d.b, "7A929ADE789BB9BE10ED359DD39A72C11B60961F49397EEE1D19CE9891EC3B28");
    BN_hex2bn(&k.b, "77105C9B20BCD3122823C8CF6FCC7B956DE33814E95B7FE64FED924594DCEAB3");
    BN_hex2bn(&e.b, "2DFBC1B372D89A1188C09C52E0EEC61FCE52032AB1022E8E67ECE6672B043EE5");
    dg = e.tole(32); sg = ec_sign(c, d, dg, k);
    if (hex(sg) != "01456c64ba4642a1653c235a98a60249bcd6d3f746b631df928014f6c5bf9c4041aa28d2f1ab148280cd9ed56feda41974053554a42767b83ad043fd39dc0493") f += "sign vector " + hex(sg) + "; ";
    if (!ec_verify(c, c.mulg(d), dg, sg)) f += "verify vector; ";
    // RFC 7836 A: VKO_GOSTR3410_2012_256 / 512 on 512-bit paramSetA
    const Curve &a = curve(11); Bytes ukm = HX("1d80603c8544c727");
    Bn x = Bn::le(HX("c990ecd972fce84ec4db022778f50fcac726f46708384b8d458304962d7147f8c2db41cef22c90b102f2968404f9b9be6d47c79692d81826b32b8daca43cb667"));
    Bn y = Bn::le(HX("48c859f7b6f11585887cc05ec6ef1390cfea739b1a18c0d4662293ef63b79e3b8014070b44918590b4b996acfea4edfbbbcccc8c06edd8bf5bda92a51392d0db"));
    if (hex(vko(a, x, a.mulg(y), ukm, 256)) != "c9a9a77320e2cc559ed72dce6f47e2192ccea95fa648670582c054c0ef36c221") f += "vko256 vector; ";
    if (hex(vko(a, y, a.mulg(x), ukm, 512)) != "79f002a96940ce7bde3259a52e015297adaad84597a0d205b50e3e1719f97bfa7ee1d2661fa9979a5aa235b558a7e6d9f88f982dd63fc35a8ec0dd5e242d3bdf") f += "vko512 vector " + hex(vko(a, y, a.mulg(x), ukm, 512)) + "; ";
    return f;
}
}
int ka_nid(int ka) { return ka == KA_2001 ? NID_id_GostR3410_2001 : ka == KA_256 ? NID_id_GostR3410_2012_256 : ka == KA_512 ? NID_id_GostR3410_2012_512 : NID_id_GostR3410_2001DH; }
const std::vector<int> &ka_curves(int ka) {
    static const std::vector<int> c01{ 0, 1, 3, 5, 7, 8 }, c12{ 0, 1, 2, 3, 4, 5, 6, 7, 8, 9 }, c512{ 10, 11, 12, 13 };
    return ka == KA_512 ? c512 : ka == KA_256 ? c12 : c01;
}
EVP_PKEY *key_gen(int ka, const Curve &cv, bool byname) {
    EVP_PKEY_CTX *c = EVP_PKEY_CTX_new_id(ka_nid(ka), lib_engine()); EVP_PKEY *pk = NULL;
    if (!c) return NULL;
    // the short form is the only name the control string takes for the aliased tc26 sets
    const char *nm = cv.sn; std::string tc = std::string("TC") + cv.sn[strlen(cv.sn) - 1];
    if (!strncmp(nm, "id-tc26-gost-3410-2012-256", 26)) nm = tc.c_str();
    bool ok = EVP_PKEY_keygen_init(c) > 0
        && (byname ? EVP_PKEY_CTX_ctrl_str(c, "paramset", nm) > 0 : EVP_PKEY_CTX_ctrl(c, -1, EVP_PKEY_OP_KEYGEN, SIM_PKEY_CTRL_GOST_PARAMSET, cv.nid, NULL) > 0)
        && EVP_PKEY_keygen(c, &pk) > 0;
    EVP_PKEY_CTX_free(c);
    if (!ok) { EVP_PKEY_free(pk); return NULL; }
    return pk;
}
Bytes der(uint8_t tag, const Bytes &b) {
    Bytes o{ tag };
    if (b.size() < 128) o.push_back(b.size());
    else if (b.size() < 256) { o.push_back(0x81); o.push_back(b.size()); }
    else { o.push_back(0x82); o.push_back(b.size() >> 8); o.push_back(b.size()); }
    return cat(o, b);
}
Bytes der_oid(const char *sn) {
    ASN1_OBJECT *o = OBJ_txt2obj(sn, 0); uint8_t *p = NULL; int n = i2d_ASN1_OBJECT(o, &p);
    Bytes b(p, p + (n > 0 ? n : 0)); OPENSSL_free(p); ASN1_OBJECT_free(o); return b;
}
static Bytes algid(int ka, const Curve &cv) {
    Bytes par = der_oid(cv.sn);
    // the digest parameter is absent for the tc26 parameter sets
    if (!strncmp(cv.sn, "id-GostR3410-2001", 17))
        par = cat(par, der_oid(ka == KA_2001 || ka == KA_2001DH ? "id-GostR3411-94-CryptoProParamSet" : ka == KA_256 ? "md_gost12_256" : "md_gost12_512"));
    return der(0x30, cat(der_oid(OBJ_nid2sn(ka_nid(ka))), der(0x30, par)));
}
Bytes pub_der(int ka, const Curve &cv, const Bytes &xy) {
    Bytes os = der(4, xy); os.insert(os.begin(), 0);
    return der(0x30, cat(algid(ka, cv), der(3, os)));
}
Bytes p8_der(int ka, const Curve &cv, const Bytes &body) {
    Bytes v{ 2, 1, 0 };
    return der(0x30, cat(cat(v, algid(ka, cv)), der(4, body)));
}
Bytes priv_der(int ka, const Curve &cv, const Bytes &d) { return p8_der(ka, cv, der(4, d)); }
EVP_PKEY *key_import(int ka, const Curve &cv, const Bn &d) {
    Bytes x = priv_der(ka, cv, d.tole(cv.len)); const uint8_t *p = x.data();
    PKCS8_PRIV_KEY_INFO *p8 = d2i_PKCS8_PRIV_KEY_INFO(NULL, &p, x.size());
    EVP_PKEY *pk = p8 ? EVP_PKCS82PKEY(p8) : NULL; PKCS8_PRIV_KEY_INFO_free(p8); return pk;
}
EVP_PKEY *pub_import(int ka, const Curve &cv, const Pt &Q) {
    Bytes x = pub_der(ka, cv, cv.pubLE(Q)); const uint8_t *p = x.data();
    return d2i_PUBKEY(NULL, &p, x.size());
}
bool key_read(EVP_PKEY *pk, Bn &d, Pt &Q) {
    const EC_KEY *ec = (const EC_KEY *)EVP_PKEY_get0(pk); Q = Pt(); d = Bn();
    if (!ec || !EC_KEY_get0_group(ec)) return false;
    if (EC_KEY_get0_public_key(ec)) Q = frompt(EC_KEY_get0_group(ec), EC_KEY_get0_public_key(ec));
    const BIGNUM *p = EC_KEY_get0_private_key(ec); if (!p) return false;
    BN_copy(d.b, p); return true;
}
std::string key_check(EVP_PKEY *pk, const Curve &cv) {
    Bn d; Pt Q; const EC_KEY *ec = (const EC_KEY *)EVP_PKEY_get0(pk);
    if (!ec || !EC_KEY_get0_group(ec)) return "no parameters";
    if (EC_GROUP_get_curve_name(EC_KEY_get0_group(ec)) != cv.nid) return strf("on curve %s", OBJ_nid2sn(EC_GROUP_get_curve_name(EC_KEY_get0_group(ec))));
    if (!key_read(pk, d, Q)) return "no private part";
    if (d.zero() || !(d < cv.q)) return "private part out of range";
    Pt W = cv.mulg(d);
    if (Q.inf || W.x != Q.x || W.y != Q.y) return "public part does not match the private part";
    return "";
}
