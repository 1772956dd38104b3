// A small DER tree, for taking messages apart and putting them together altered.
#pragma once
#include "ec.h"
struct Node { uint8_t tag = 0; bool cons = false; std::vector<Node> kids; Bytes body; };
inline bool parse(const uint8_t *&p, const uint8_t *e, Node &n, int depth) {
    if (e - p < 2 || depth > 12) return false;
    n.tag = *p++; size_t l = *p++;
    if (l & 0x80) { int k = l & 0x7f; l = 0; if (!k || k > 3 || e - p < k) return false; while (k--) l = l << 8 | *p++; }
    if ((size_t)(e - p) < l) return false;
    const uint8_t *q = p, *qe = p + l; n.cons = n.tag & 0x20;
    if (n.cons) { while (q < qe) { n.kids.emplace_back(); if (!parse(q, qe, n.kids.back(), depth + 1)) return false; } }
    else n.body.assign(q, qe);
    p = qe; return true;
}
inline bool parse(const Bytes &b, Node &n) { const uint8_t *p = b.data(); return parse(p, p + b.size(), n, 0) && p == b.data() + b.size(); }
inline Bytes emit(const Node &n) {
    if (!n.cons) return der(n.tag, n.body);
    Bytes b; for (auto &k : n.kids) b = cat(b, emit(k));
    return der(n.tag, b);
}
inline void leaves(Node &n, std::vector<Node *> &v) { if (!n.cons) v.push_back(&n); for (auto &k : n.kids) leaves(k, v); }
