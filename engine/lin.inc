// Order and linear arithmetic queries over whole 32/64-bit variables: exact translation to linear integer
// arithmetic (every bit-vector term is represented by its signed value, wrap-around by case distinction).
// Included by solver.cpp.
struct Lin {
    bool ok = true;
    unsigned wideLeaves = 0, wideCmp = 0;
    std::unordered_map<u32, Z3_ast> term, form;
    std::unordered_map<u32, u32> owner;  // variable -> leaf expression id
    struct Leaf {
        Z3_ast v;
        std::vector<u32> vars;  // most significant first
        unsigned w;
    };
    std::vector<Leaf> leaves;
    std::vector<Z3_ast> side;
    unsigned nodes = 0;

    Z3_sort I() { return Z3_mk_int_sort(C); }
    static std::string dec(i128 v) {
        if (v == 0) return "0";
        bool neg = v < 0;
        u128 u = neg ? (u128)0 - (u128)v : (u128)v;
        std::string s;
        while (u) {
            s.insert(s.begin(), (char)('0' + (int)(u % 10)));
            u /= 10;
        }
        return neg ? "-" + s : s;
    }
    Z3_ast num(i128 v) { return Z3_mk_numeral(C, dec(v).c_str(), I()); }
    Z3_ast add(Z3_ast a, Z3_ast b) { Z3_ast x[2] = {a, b}; return Z3_mk_add(C, 2, x); }
    Z3_ast sub(Z3_ast a, Z3_ast b) { Z3_ast x[2] = {a, b}; return Z3_mk_sub(C, 2, x); }
    Z3_ast bad(E e) {
        static const bool dbg = getenv("SYMX_LINDBG") != nullptr;
        if (dbg && ok) fprintf(stderr, "not linear: %s\n", toString(e, 3).c_str());
        ok = false;
        return nullptr;
    }

    bool vars(E e, std::vector<u32>& out) {
        if (e->op == OP_VAR) {
            out.push_back((u32)e->val);
            return true;
        }
        if (e->op == OP_CONCAT) return vars(e->a, out) && vars(e->b, out);
        return false;
    }
    Z3_ast wrap(Z3_ast s, unsigned w, bool up, bool down) {
        i128 half = (i128)1 << (w - 1), full = (i128)1 << w;
        Z3_ast r = s;
        if (down) r = Z3_mk_ite(C, Z3_mk_lt(C, s, num(-half)), add(s, num(full)), r);
        if (up) r = Z3_mk_ite(C, Z3_mk_ge(C, s, num(half)), sub(s, num(full)), r);
        return r;
    }
    Z3_ast T(E e) {
        if (!ok) return nullptr;
        auto it = term.find(e->id);
        if (it != term.end()) return it->second;
        if (++nodes > 4000 || e->width > 100) return bad(e);
        Z3_ast r = nullptr;
        unsigned w = e->width;
        switch (e->op) {
            case OP_CONST: r = num(sextOf(e->val, w)); break;
            case OP_VAR:
            case OP_CONCAT: {
                Leaf l;
                if (!vars(e, l.vars)) {
                    // zero bytes above a value
                    if (isConst(e->a) && e->a->val == 0) {
                        r = U(e->b);
                        break;
                    }
                    return bad(e);
                }
                for (u32 v : l.vars) {
                    if (owner.count(v)) return bad(e);
                    owner[v] = e->id;
                }
                l.w = w;
                l.v = Z3_mk_fresh_const(C, "x", I());
                Z3_inc_ref(C, l.v);
                side.push_back(Z3_mk_ge(C, l.v, num(-((i128)1 << (w - 1)))));
                side.push_back(Z3_mk_lt(C, l.v, num((i128)1 << (w - 1))));
                if (w >= 32) wideLeaves++;
                r = l.v;
                leaves.push_back(l);
                break;
            }
            case OP_ADD:
            case OP_SUB: {
                Z3_ast a = T(e->a), b = T(e->b);
                if (!ok) return nullptr;
                bool up = true, down = true;
                if (e->op == OP_ADD) {
                    if (isConst(e->b)) (sextOf(e->b->val, w) >= 0 ? down : up) = false;
                    else if (isConst(e->a)) (sextOf(e->a->val, w) >= 0 ? down : up) = false;
                    r = wrap(add(a, b), w, up, down);
                } else {
                    if (isConst(e->b)) (sextOf(e->b->val, w) >= 0 ? up : down) = false;
                    r = wrap(sub(a, b), w, up, down);
                }
                break;
            }
            case OP_NOT:
                if (w == 1) return bad(e);
                r = sub(num(-1), T(e->a));
                break;
            case OP_ZEXT: r = U(e->a); break;
            case OP_SEXT: r = e->a->width == 1 ? Z3_mk_ite(C, F(e->a), num(-1), num(0)) : T(e->a); break;
            case OP_ITE: {
                Z3_ast c = F(e->a), x = T(e->b), y = T(e->c);
                if (!ok) return nullptr;
                r = Z3_mk_ite(C, c, x, y);
                break;
            }
            case OP_LSHR:
            case OP_ASHR:
                if (!isConst(e->b) || e->b->val != w - 1) return bad(e);
                r = T(e->a);
                if (!ok) return nullptr;
                r = Z3_mk_ite(C, Z3_mk_lt(C, r, num(0)), num(e->op == OP_LSHR ? 1 : -1), num(0));
                break;
            case OP_AND:
            case OP_OR:
            case OP_XOR: {
                // flags held in wider values
                if (w == 1 || structMax(e->a) > 1 || structMax(e->b) > 1) return bad(e);
                Z3_ast a = T(e->a), b = T(e->b);
                if (!ok) return nullptr;
                Z3_ast x[2] = {Z3_mk_eq(C, a, num(1)), Z3_mk_eq(C, b, num(1))};
                Z3_ast f = e->op == OP_AND ? Z3_mk_and(C, 2, x) : e->op == OP_OR ? Z3_mk_or(C, 2, x) : Z3_mk_xor(C, x[0], x[1]);
                r = Z3_mk_ite(C, f, num(1), num(0));
                break;
            }
            case OP_EXTRACT:
                if (w == 1 || e->val != 0 || structMax(e->a) >> (w - 1) != 0) return bad(e);
                r = T(e->a);
                break;
            default: return bad(e);
        }
        if (!ok) return nullptr;
        term[e->id] = r;
        return r;
    }
    bool nonneg(E e) { return (e->op == OP_CONST && sextOf(e->val, e->width) >= 0) || (e->op == OP_ZEXT) || (e->op == OP_CONCAT && isConst(e->a) && e->a->val == 0); }
    // unsigned value
    Z3_ast U(E e) {
        if (e->width == 1) {
            Z3_ast f = F(e);
            return ok ? Z3_mk_ite(C, f, num(1), num(0)) : nullptr;
        }
        Z3_ast t = T(e);
        if (!ok || nonneg(e)) return t;
        return Z3_mk_ite(C, Z3_mk_lt(C, t, num(0)), add(t, num((i128)1 << e->width)), t);
    }
    // whole values met in the query: variable -> (value, position)
    std::unordered_map<u32, std::pair<E, u32>> groupOf;
    std::unordered_map<u32, u8> seen;
    void collect(E e) {
        if (!ok || seen.count(e->id)) return;
        seen[e->id] = 1;
        if (e->op == OP_CONCAT) {
            std::vector<u32> v;
            if (vars(e, v)) {
                for (u32 i = 0; i < v.size(); i++) {
                    auto it = groupOf.find(v[i]);
                    if (it != groupOf.end() && it->second.first != e) {
                        bad(e);
                        static const bool dbg = getenv("SYMX_LINDBG") != nullptr;
                        if (dbg) fprintf(stderr, "  other: %s\n  this %s\n", toString(it->second.first, 9).c_str(), toString(e, 9).c_str());
                        return;
                    }
                    groupOf[v[i]] = {e, i};
                }
                return;
            }
        }
        if (e->a) collect(e->a);
        if (e->b) collect(e->b);
        if (e->c) collect(e->c);
    }
    // a conjunction; byte-wise equalities of whole values are put together again
    void conjuncts(const std::vector<E>& in, std::vector<Z3_ast>& out) {
        struct Part {
            E a, b;  // b == nullptr: constant
            u32 have = 0;
            u64 val = 0;
        };
        std::vector<Part> parts;
        for (E e : in) {
            if (!ok) return;
            if (e->op == OP_EQ && e->a->width < 32) {
                E x = e->a, y = e->b;
                if (y->op == OP_VAR && x->op == OP_CONST) std::swap(x, y);
                if (x->op == OP_VAR && (y->op == OP_VAR || y->op == OP_CONST)) {
                    auto gx = groupOf.find((u32)x->val);
                    if (y->op == OP_VAR) {
                        auto gy = groupOf.find((u32)y->val);
                        if (gx == groupOf.end() && gy == groupOf.end()) {
                            out.push_back(F(e));
                            continue;
                        }
                        if (gx == groupOf.end() || gy == groupOf.end() || gx->second.second != gy->second.second || gx->second.first->width != gy->second.first->width) {
                            bad(e);
                            return;
                        }
                        E p = gx->second.first, q = gy->second.first;
                        if (p->id > q->id) std::swap(p, q);
                        Part* f = nullptr;
                        for (auto& t : parts)
                            if (t.a == p && t.b == q) f = &t;
                        if (!f) {
                            parts.push_back(Part{p, q});
                            f = &parts.back();
                        }
                        f->have |= 1u << gx->second.second;
                        continue;
                    }
                    if (gx != groupOf.end()) {
                        E p = gx->second.first;
                        Part* f = nullptr;
                        for (auto& t : parts)
                            if (t.a == p && !t.b) f = &t;
                        if (!f) {
                            parts.push_back(Part{p, nullptr});
                            f = &parts.back();
                        }
                        u32 n = p->width / 8, pos = gx->second.second;
                        f->have |= 1u << pos;
                        f->val |= (u64)(y->val & 0xff) << (8 * (n - 1 - pos));
                        continue;
                    }
                }
            }
            Z3_ast f = F(e);
            if (!ok) return;
            out.push_back(f);
        }
        for (auto& t : parts) {
            if (t.have != (1u << (t.a->width / 8)) - 1) {
                bad(t.a);
                return;
            }
            Z3_ast x = T(t.a), y = t.b ? T(t.b) : num(sextOf(t.val, t.a->width));
            if (!ok) return;
            if (t.b && t.a->width >= 32) wideCmp++;
            out.push_back(Z3_mk_eq(C, x, y));
        }
    }
    void note(E e) {
        if (e->a->width >= 32 && !isConst(e->a) && !isConst(e->b)) wideCmp++;
    }
    // most significant byte of a whole value
    E topByte(E e) {
        if (e->op != OP_VAR || e->width != 8) return nullptr;
        auto it = groupOf.find((u32)e->val);
        return it != groupOf.end() && it->second.second == 0 ? it->second.first : nullptr;
    }
    Z3_ast topCmp(E e) {
        bool sign = e->op == OP_SLT || e->op == OP_SLE, strict = e->op == OP_SLT || e->op == OP_ULT;
        E l = topByte(e->a), g = l ? l : topByte(e->b), k = l ? e->b : e->a;
        if (!isConst(k)) return bad(e);
        i128 c = sign ? sextOf(k->val, 8) : (i128)k->val;
        i128 unit = (i128)1 << (g->width - 8);
        Z3_ast x = sign ? T(g) : U(g);
        if (!ok) return nullptr;
        // b < c: x < c * unit;  b <= c: x < (c + 1) * unit;  c < b: x >= (c + 1) * unit;  c <= b: x >= c * unit
        if (l) return Z3_mk_lt(C, x, num((strict ? c : c + 1) * unit));
        return Z3_mk_ge(C, x, num((strict ? c + 1 : c) * unit));
    }
    Z3_ast F(E e) {
        if (!ok) return nullptr;
        auto it = form.find(e->id);
        if (it != form.end()) return it->second;
        if (++nodes > 4000) return bad(e);
        Z3_ast r = nullptr;
        switch (e->op) {
            case OP_CONST: r = e->val ? Z3_mk_true(C) : Z3_mk_false(C); break;
            case OP_EQ: {
                note(e);
                Z3_ast a = e->a->width == 1 ? F(e->a) : T(e->a), b = e->a->width == 1 ? F(e->b) : T(e->b);
                if (!ok) return nullptr;
                r = e->a->width == 1 ? Z3_mk_iff(C, a, b) : Z3_mk_eq(C, a, b);
                break;
            }
            case OP_ULT:
            case OP_ULE: {
                if (topByte(e->a) || topByte(e->b)) {
                    r = topCmp(e);
                    break;
                }
                note(e);
                Z3_ast a = U(e->a), b = U(e->b);
                if (!ok) return nullptr;
                r = e->op == OP_ULT ? Z3_mk_lt(C, a, b) : Z3_mk_le(C, a, b);
                break;
            }
            case OP_SLT:
            case OP_SLE: {
                if (topByte(e->a) || topByte(e->b)) {
                    r = topCmp(e);
                    break;
                }
                note(e);
                if (e->a->width == 1) return bad(e);
                Z3_ast a = T(e->a), b = T(e->b);
                if (!ok) return nullptr;
                r = e->op == OP_SLT ? Z3_mk_lt(C, a, b) : Z3_mk_le(C, a, b);
                break;
            }
            case OP_NOT: {
                Z3_ast a = F(e->a);
                if (!ok) return nullptr;
                r = Z3_mk_not(C, a);
                break;
            }
            case OP_AND: {
                std::vector<E> in;
                std::vector<Z3_ast> out;
                conj(e, in);
                conjuncts(in, out);
                if (!ok) return nullptr;
                r = out.size() == 1 ? out[0] : Z3_mk_and(C, out.size(), out.data());
                break;
            }
            case OP_OR:
            case OP_XOR: {
                Z3_ast x[2] = {F(e->a), F(e->b)};
                if (!ok) return nullptr;
                r = e->op == OP_AND ? Z3_mk_and(C, 2, x) : e->op == OP_OR ? Z3_mk_or(C, 2, x) : Z3_mk_xor(C, x[0], x[1]);
                break;
            }
            case OP_ITE: {
                Z3_ast c = F(e->a), x = F(e->b), y = F(e->c);
                if (!ok) return nullptr;
                r = Z3_mk_ite(C, c, x, y);
                break;
            }
            case OP_EXTRACT: {
                if ((unsigned)e->val != e->a->width - 1 && !(e->val == 0 && structMax(e->a) <= 1)) {
                    // bit i of x: (x div 2^i) mod 2
                    Z3_ast a = T(e->a);
                    if (!ok) return nullptr;
                    if (e->val) a = Z3_mk_div(C, a, num((i128)1 << (unsigned)e->val));
                    r = Z3_mk_eq(C, Z3_mk_mod(C, a, num(2)), num(1));
                    break;
                }
                Z3_ast a = topByte(e->a) ? T(topByte(e->a)) : T(e->a);
                if (!ok) return nullptr;
                if (e->val == 0 && !topByte(e->a)) {
                    r = Z3_mk_eq(C, a, num(1));
                    break;
                }
                r = Z3_mk_lt(C, a, num(0));
                break;
            }
            default: return bad(e);
        }
        if (!ok) return nullptr;
        form[e->id] = r;
        return r;
    }
};

static Z3_lbool linSolve(const std::vector<E>& lits, const std::vector<u32>& touched, std::vector<std::pair<u32, u64>>& vals, bool& applied) {
    applied = false;
    Lin L;
    std::vector<Z3_ast> fs;
    for (E e : lits) L.collect(e);
    if (L.ok && L.groupOf.size() >= 8) L.conjuncts(lits, fs);
    else L.ok = false;
    Z3_lbool r = Z3_L_UNDEF;
    if (L.ok && L.wideLeaves >= 2 && L.wideCmp >= 1) {
        applied = true;
        static Z3_solver LS = nullptr;
        if (!LS) {
            LS = Z3_mk_solver_for_logic(C, Z3_mk_string_symbol(C, "QF_LIA"));
            Z3_solver_inc_ref(C, LS);
            Z3_params p = Z3_mk_params(C);
            Z3_params_inc_ref(C, p);
            Z3_params_set_uint(C, p, Z3_mk_string_symbol(C, "timeout"), 5000);
            Z3_solver_set_params(C, LS, p);
            Z3_params_dec_ref(C, p);
        }
        Z3_solver_reset(C, LS);
        for (Z3_ast a : L.side) Z3_solver_assert(C, LS, a);
        for (Z3_ast a : fs) Z3_solver_assert(C, LS, a);
        r = Z3_solver_check(C, LS);
        if (r == Z3_L_TRUE) {
            Z3_model m = Z3_solver_get_model(C, LS);
            Z3_model_inc_ref(C, m);
            for (auto& l : L.leaves) {
                Z3_ast val;
                int64_t x = 0;
                if (Z3_model_eval(C, m, l.v, true, &val)) Z3_get_numeral_int64(C, val, &x);
                u64 v = (u64)x;
                for (size_t i = l.vars.size(); i-- > 0;) {
                    unsigned w = g_vars[l.vars[i]].width;
                    vals.push_back({l.vars[i], w >= 64 ? v : v & ((1ull << w) - 1)});
                    v = w >= 64 ? 0 : v >> w;
                }
            }
            Z3_model_dec_ref(C, m);
            (void)touched;
        }
    }
    for (auto& l : L.leaves) Z3_dec_ref(C, l.v);
    return r;
}
