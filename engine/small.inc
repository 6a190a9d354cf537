// Queries over one value of a small range: decided by evaluating them for every value of the range.
// Bounds come from the literals comparing the whole value with a constant, so the range contains every solution.
static E asBytes(E e, std::vector<u32>& bytes) {  // concatenation of whole variables, high to low
    if (e->op == OP_VAR) {
        bytes.push_back((u32)e->val);
        return e;
    }
    if (e->op == OP_CONCAT) {
        if (asBytes(e->a, bytes) && asBytes(e->b, bytes)) return e;
    }
    return nullptr;
}
static bool smallSolve(const std::vector<E>& lits, const std::vector<u32>& touched, const Model& cur, Z3_lbool& res,
                       std::vector<std::pair<u32, u64>>& vals) {
    if (touched.empty() || touched.size() > 8) return false;
    E W = nullptr;
    std::vector<u32> bytes;
    i128 slo, shi, ulo = 0, uhi;
    auto setW = [&](E e) {
        if (W) return e == W;
        bytes.clear();
        if (!asBytes(e, bytes) || bytes.size() != touched.size()) return false;
        for (u32 b : bytes) {
            if (std::find(touched.begin(), touched.end(), b) == touched.end()) return false;
        }
        for (size_t i = 0; i < bytes.size(); i++)
            for (size_t j = 0; j < i; j++)
                if (bytes[i] == bytes[j]) return false;
        W = e;
        uhi = (i128)maskOf(e->width);
        shi = (i128)(maskOf(e->width) >> 1);
        slo = -shi - 1;
        return true;
    };
    for (E l : lits) {
        bool neg = false;
        E c = l;
        if (c->op == OP_NOT && c->width == 1) neg = true, c = c->a;
        if (c->op != OP_ULT && c->op != OP_ULE && c->op != OP_SLT && c->op != OP_SLE) continue;
        bool sgn = c->op == OP_SLT || c->op == OP_SLE, strict = c->op == OP_ULT || c->op == OP_SLT;
        E x = c->a, y = c->b;
        if (neg) std::swap(x, y), strict = !strict;  // !(x < y) == y <= x
        bool upper = isConst(y);
        if (isConst(x) == upper || x->width > 64) continue;
        if (!setW(upper ? x : y)) continue;
        u128 kv = (upper ? y : x)->val;
        i128 k = sgn ? sextOf(kv, W->width) : (i128)kv;
        if (upper) {
            if (strict) k--;
            i128& h = sgn ? shi : uhi;
            h = std::min(h, k);
        } else {
            if (strict) k++;
            i128& h = sgn ? slo : ulo;
            h = std::max(h, k);
        }
    }
    if (!W && touched.size() == 1) setW(mkVar(touched[0], g_vars[touched[0]].width));
    if (!W) return false;
    for (E l : lits) {  // sign bit known
        bool neg = false;
        E c = l;
        if (c->op == OP_NOT) neg = true, c = c->a;
        if (c->op != OP_EXTRACT || c->width != 1) continue;
        if (c->a->op == OP_VAR ? (u32)c->a->val != bytes[0] || c->val + 1 != c->a->width : c->a != W || c->val + 1 != W->width) continue;
        if (neg) slo = std::max(slo, (i128)0);
        else shi = std::min(shi, (i128)-1);
    }
    i128 half = (i128)1 << (W->width - 1);
    // signed and unsigned bounds meet where the sign is known
    if (slo >= 0) ulo = std::max(ulo, slo), uhi = std::min(uhi, shi);
    else if (shi < 0) ulo = std::max(ulo, slo + 2 * half), uhi = std::min(uhi, shi + 2 * half);
    else if (uhi < half) ulo = std::max(ulo, slo), uhi = std::min(uhi, shi);
    if (uhi - ulo >= 512) return false;
    static Model m;
    m = cur;
    u32 top = *std::max_element(bytes.begin(), bytes.end());
    if (m.size() <= top) m.resize(top + 1, 0);
    for (i128 v = ulo; v <= uhi; v++) {
        u128 rest = (u128)v;
        for (size_t i = bytes.size(); i-- > 0;) {
            unsigned w = g_vars[bytes[i]].width;
            m[bytes[i]] = (u64)(rest & maskOf(w));
            rest >>= w;
        }
        bool ok = true;
        for (size_t i = lits.size(); ok && i-- > 0;) ok = evalExpr(lits[i], m) != 0;
        if (ok) {
            vals.clear();
            for (u32 b : bytes) vals.push_back({b, m[b]});
            res = Z3_L_TRUE;
            return true;
        }
    }
    res = Z3_L_FALSE;
    return true;
}
