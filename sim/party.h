// A party: a key and a self-signed certificate for it.
#pragma once
#include "transport.h"
namespace {
struct Party { Key k; X509 *cert = nullptr; };
inline X509 *mkcert(const Key &k, EVP_PKEY *issuer, int serial) {
    X509 *x = X509_new(); X509_set_version(x, 2); ASN1_INTEGER_set(X509_get_serialNumber(x), serial);
    X509_NAME *n = X509_get_subject_name(x); X509_NAME_add_entry_by_txt(n, "CN", MBSTRING_ASC, (const uint8_t *)"sim", -1, -1, 0); X509_set_issuer_name(x, n);
    X509_gmtime_adj(X509_getm_notBefore(x), -3600); X509_gmtime_adj(X509_getm_notAfter(x), 3600);
    if (X509_set_pubkey(x, k.pk) != 1 || X509_sign(x, issuer, EVP_get_digestbynid(k.ka == KA_512 ? NID_id_GostR3411_2012_512 : k.ka == KA_256 ? NID_id_GostR3411_2012_256 : NID_id_GostR3411_94)) <= 0) { X509_free(x); return NULL; }
    return x;
}
inline void mkparty(Party &q, int ka, uint64_t cv, int serial, Ctx &c) {
    X509_free(q.cert); EVP_PKEY_free(q.k.pk); q = Party(); auto &cs = ka_curves(ka); q.k.ka = ka; q.k.cv = &curve(cs[cv % cs.size()]); c.op("party"); c.mixsig(ka * 64 + cv % cs.size());
    q.k.pk = key_gen(ka, *q.k.cv, false); if (!q.k.pk) c.violate("keygen", "key generation refused: %s", sim::err_text().c_str());
    q.k.priv = key_read(q.k.pk, q.k.d, q.k.Q); q.k.ka = EVP_PKEY_base_id(q.k.pk) == ka_nid(KA_2001) ? KA_2001 : ka;
    q.cert = mkcert(q.k, q.k.pk, serial); if (!q.cert) c.violate("certificate", "certificate refused: %s", sim::err_text().c_str());
}
}
