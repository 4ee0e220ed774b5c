// Instruction semantics, external function models and the exploration loop.  Included by bsym.cpp.

// ------------------------------------------------------------------------------------ floating point
static z3::sort fpSort(unsigned bits) { return bits == 32 ? Z->fpa_sort(8, 24) : Z->fpa_sort(11, 53); }
static z3::expr fpEx(const Val& v) {
    if (v.k == Val::SFp) return v.ex();
    if (v.k == Val::Fp) {
        if (v.bits == 32) { float f = (float)v.fp(); uint32_t w; memcpy(&w, &f, 4); return z3::expr(*Z, Z3_mk_fpa_to_fp_bv(*Z, Z->bv_val((uint64_t)w, 32), fpSort(32))).simplify(); }
        return z3::expr(*Z, Z3_mk_fpa_to_fp_bv(*Z, Z->bv_val((uint64_t)v.u, 64), fpSort(64))).simplify();
    }
    unsup("fp term");
}
static z3::expr rne() { return z3::expr(*Z, Z3_mk_fpa_rne(*Z)); }
static Val freshFp(unsigned bits) { return vEx(Val::SFp, Z->constant(("fp!" + std::to_string(freshCnt++)).c_str(), fpSort(bits)), bits); }
static uint32_t newVar(const z3::expr& e, bool isInt) {
    uint32_t id = varEx.size();
    varEx.push_back(e);
    varInt.push_back(isInt);
    return id;
}
static RFp freshReal(z3::expr* out = nullptr) {
    z3::expr e = Z->real_const(("r!" + std::to_string(freshCnt++)).c_str());
    if (out) *out = e;
    return rf::mkvar(newVar(e, false));
}
// a = M + R, M an integer-valued combination of integer variables
static void splitInt(const RFp& a, RFp& Mi, RFp& R) {
    Mi = rf::mkc(0);
    R = a;
    if (a->c || a->sp) return;
    std::set<uint32_t> iv;
    for (auto& t : a->num.t) for (auto& ve : rf::MT().m[t.first]) if (varInt[ve.first]) iv.insert(ve.first);
    rf::Poly den = rf::denPoly(a->den);
    for (uint32_t v : iv) {
        rf::Poly c;
        for (auto& t : a->num.t) {
            uint32_t q;
            bool has = false;
            for (auto& ve : rf::MT().m[t.first]) if (ve.first == v && ve.second == 1) has = true;
            if (has && rf::MT().div(t.first, rf::MT().var(v), q)) c.t.push_back({q, t.second});
        }
        std::sort(c.t.begin(), c.t.end(), [](auto& p, auto& q) { return p.first < q.first; });
        if (c.zero()) continue;
        rf::Poly q;
        if (!rf::pdiv(c, den, q) || !q.isConst()) continue;
        mpq_class k = q.constVal();
        if (k.get_den() != 1) continue;
        RFp term = rf::mul(rf::mkc(k), rf::mkvar(v));
        Mi = rf::addsub(Mi, term, 1);
        R = rf::addsub(R, term, -1);
    }
}
static mpz_class floorq(const mpq_class& q) { mpz_class r; mpz_fdiv_q(r.get_mpz_t(), q.get_num_mpz_t(), q.get_den_mpz_t()); return r; }
static mpz_class ceilq(const mpq_class& q) { mpz_class r; mpz_cdiv_q(r.get_mpz_t(), q.get_num_mpz_t(), q.get_den_mpz_t()); return r; }
static mpq_class modelVal(const z3::model& m, const z3::expr& e) {
    z3::expr v = m.eval(e, true);
    if (v.is_numeral()) { mpq_class q; q.set_str(Z3_get_numeral_string(*Z, v), 10); q.canonicalize(); return q; }
    if (v.is_algebraic()) { z3::expr lo(*Z, Z3_get_algebraic_number_lower(*Z, v, 20)); mpq_class q; q.set_str(Z3_get_numeral_string(*Z, lo), 10); q.canonicalize(); return q; }
    return mpq_class(0);
}
static z3::expr cmpEx(State& s, const RFp& a, const RFp& b, char op) {  // '<' '>' 'l' (<=) 'g' (>=) '=' '!'
    RFp d = rf::addsub(a, b, -1);
    if (d->c) {
        int sg = sgn(d->v);
        bool r = op == '<' ? sg < 0 : op == '>' ? sg > 0 : op == 'l' ? sg <= 0 : op == 'g' ? sg >= 0 : op == '=' ? sg == 0 : sg != 0;
        return Z->bool_val(r);
    }
    if (op == '=' || op == '!') { z3::expr e = polyEx(d->num); return op == '=' ? e == 0 : e != 0; }
    z3::expr e = signExpr(s, d);
    switch (op) { case '<': return e < 0; case '>': return e > 0; case 'l': return e <= 0; default: return e >= 0; }
}
static RFp roundReal(State& s, const RFp& a, char mode) {  // 'f' floor 'c' ceil 't' trunc 'r' round half away
    if (a->sp) return a;
    if (mode == 'r') {
        bool neg = a->c ? a->v < 0 : decide(s, cmpEx(s, a, rf::mkc(0), '<'));
        return neg ? roundReal(s, rf::addsub(a, rf::mkc(mpq_class(1, 2)), -1), 'c') : roundReal(s, rf::addsub(a, rf::mkc(mpq_class(1, 2)), 1), 'f');
    }
    if (mode == 't') {
        bool neg = a->c ? a->v < 0 : decide(s, cmpEx(s, a, rf::mkc(0), '<'));
        return roundReal(s, a, neg ? 'c' : 'f');
    }
    if (a->c) return rf::mkc(mpq_class(mode == 'f' ? floorq(a->v) : ceilq(a->v)));
    RFp Mi, R;
    splitInt(a, Mi, R);
    if (R->c) return rf::addsub(Mi, rf::mkc(mpq_class(mode == 'f' ? floorq(R->v) : ceilq(R->v))), 1);
    if (query(s, Z->bool_val(true), true) != z3::sat) { if (!feasiblePath(s)) throw PathEnd{}; unsup("no model for rounding"); }
    mpq_class mv;
    { // evaluate R in the model exactly
        z3::expr n = polyEx(R->num), d = polyEx(rf::denPoly(R->den));
        mpq_class dn = modelVal(*lastModel, d);
        if (dn == 0) dn = 1;
        mv = modelVal(*lastModel, n) / dn;
    }
    mpz_class k = mode == 'f' ? floorq(mv) : ceilq(mv);
    if (abs(k) > s.roundTail + 1) {  // everything far out is one case with a symbolic integer part
        mpq_class T(k > 0 ? s.roundTail : -s.roundTail);
        z3::expr out = cmpEx(s, R, rf::mkc(T), k > 0 ? '>' : '<');
        if (query(s, !out) != z3::unsat) { State* o = forkState(s); o->pc.push_back((!out).simplify()); }
        s.pc.push_back(out.simplify());
        RFp M = freshReal();
        s.pc.push_back(mode == 'f' ? cmpEx(s, M, R, 'l') && cmpEx(s, M, rf::addsub(R, rf::mkc(1), -1), '>') : cmpEx(s, M, R, 'g') && cmpEx(s, M, rf::addsub(R, rf::mkc(1), 1), '<'));
        return rf::addsub(Mi, M, 1);
    }
    z3::expr below = mode == 'f' ? cmpEx(s, R, rf::mkc(mpq_class(k)), '<') : cmpEx(s, R, rf::mkc(mpq_class(k - 1)), 'l');
    z3::expr above = mode == 'f' ? cmpEx(s, R, rf::mkc(mpq_class(k + 1)), 'g') : cmpEx(s, R, rf::mkc(mpq_class(k)), '>');
    if (query(s, below) != z3::unsat) { State* o = forkState(s); o->pc.push_back(below.simplify()); }
    if (query(s, above) != z3::unsat) { State* o = forkState(s); o->pc.push_back(above.simplify()); }
    s.pc.push_back((!below && !above).simplify());
    return rf::addsub(Mi, rf::mkc(mpq_class(k)), 1);
}
static double fpBin(unsigned opc, double a, double b, unsigned bits) {
    if (bits == 32) {
        float x = (float)a, y = (float)b;
        switch (opc) { case Instruction::FAdd: return x + y; case Instruction::FSub: return x - y; case Instruction::FMul: return x * y; case Instruction::FDiv: return x / y; default: return fmodf(x, y); }
    }
    switch (opc) { case Instruction::FAdd: return a + b; case Instruction::FSub: return a - b; case Instruction::FMul: return a * b; case Instruction::FDiv: return a / b; default: return fmod(a, b); }
}
static Val fbin(State& s, unsigned opc, const Val& a, const Val& b) {
    unsigned bits = a.bits ? a.bits : b.bits;
    if (a.k == Val::Undef || b.k == Val::Undef) return vUndef(bits);
    if (a.k == Val::Pieces || b.k == Val::Pieces) return vUndef(bits);
    if (optFpMode) {
        if (a.k == Val::Fp && b.k == Val::Fp) return vFp(fpBin(opc, a.fp(), b.fp(), bits), bits);
        Val r = freshFp(bits);
        z3::expr x = fpEx(a), y = fpEx(b), e = r.ex();
        auto cst = [&](double d) { return fpEx(vFp(d, bits)); };
        auto le = [&](const z3::expr& p, const z3::expr& q) { return z3::expr(*Z, Z3_mk_fpa_leq(*Z, p, q)); };
        auto isnan = [&](const z3::expr& t) { return z3::expr(*Z, Z3_mk_fpa_is_nan(*Z, t)); };
        // facts that hold for correctly rounded arithmetic and keep the over-approximation useful
        if ((opc == Instruction::FAdd || opc == Instruction::FSub) && (a.k == Val::Fp || b.k == Val::Fp)) {
            bool ca = a.k == Val::Fp, negv = ca && opc == Instruction::FSub;  // e = c + v, or c - v
            double c = ca ? a.fp() : opc == Instruction::FSub ? -b.fp() : b.fp();
            if (std::isfinite(c)) {
                z3::expr v = ca ? y : x;
                if (negv) v = -v;
                z3::expr z = cst(0), k = cst(c), nk = cst(-c);
                s.lems.push_back(isnan(e) == isnan(v));
                s.lems.push_back(z3::implies(le(z, v), le(k, e)));
                s.lems.push_back(z3::implies(le(v, z), le(e, k)));
                s.lems.push_back(z3::implies(le(nk, v), le(z, e)));
                s.lems.push_back(z3::implies(le(v, nk), le(e, z)));
            }
        }
        if ((opc == Instruction::FMul && (a.k == Val::Fp || b.k == Val::Fp)) || (opc == Instruction::FDiv && b.k == Val::Fp)) {
            double c = a.k == Val::Fp ? a.fp() : b.fp();
            if (std::isfinite(c) && c > 0) {
                z3::expr v = a.k == Val::Fp ? y : x, z = cst(0);
                s.lems.push_back(isnan(e) == isnan(v));
                s.lems.push_back(z3::implies(le(z, v), le(z, e)));
                s.lems.push_back(z3::implies(le(v, z), le(e, z)));
            }
        }
        switch (opc) {
            case Instruction::FAdd: s.defs.push_back(e == x + y); break;
            case Instruction::FSub: s.defs.push_back(e == x - y); break;
            case Instruction::FMul: s.defs.push_back(e == x * y); break;
            case Instruction::FDiv: s.defs.push_back(e == x / y); break;
            default: {
                auto nan = [&](const z3::expr& t) { return z3::expr(*Z, Z3_mk_fpa_is_nan(*Z, t)); };
                auto inf = [&](const z3::expr& t) { return z3::expr(*Z, Z3_mk_fpa_is_infinite(*Z, t)); };
                auto zero = [&](const z3::expr& t) { return z3::expr(*Z, Z3_mk_fpa_is_zero(*Z, t)); };
                auto ab = [&](const z3::expr& t) { return z3::expr(*Z, Z3_mk_fpa_abs(*Z, t)); };
                auto lt = [&](const z3::expr& p, const z3::expr& q) { return z3::expr(*Z, Z3_mk_fpa_lt(*Z, p, q)); };
                auto neg = [&](const z3::expr& t) { return z3::expr(*Z, Z3_mk_fpa_is_negative(*Z, t)); };
                s.lems.push_back(z3::ite(nan(x) || nan(y) || inf(x) || zero(y), nan(e), z3::ite(lt(ab(x), ab(y)), e == x, lt(ab(e), ab(y)) && !nan(e) && neg(e) == neg(x))));
            }
        }
        return r;
    }
    RFp x = a.real(), y = b.real();
    switch (opc) {
        case Instruction::FAdd: return vReal(rf::addsub(x, y, 1), bits);
        case Instruction::FSub: return vReal(rf::addsub(x, y, -1), bits);
        case Instruction::FMul: return vReal(rf::mul(x, y), bits);
        case Instruction::FDiv:
            if (s.divOk && !y->sp && !y->c) ++nDivAssumed;
            else if (!y->sp && !y->c) {
                z3::expr z = polyEx(y->num) == 0;
                if (decide(s, z)) return vReal(rf::mksp(rf::RF::NANV), bits);
            }
            return vReal(rf::div(x, y), bits);
        default: {  // fmod
            if (x->sp || y->sp == rf::RF::NANV) return vReal(rf::mksp(rf::RF::NANV), bits);
            if (y->sp) return a;
            if (y->c && y->v == 0) return vReal(rf::mksp(rf::RF::NANV), bits);
            if (!y->c && decide(s, polyEx(y->num) == 0)) return vReal(rf::mksp(rf::RF::NANV), bits);
            RFp q = roundReal(s, rf::div(x, y), 't');
            return vReal(rf::addsub(x, rf::mul(q, y), -1), bits);
        }
    }
}
static Val fcmp(State& s, CmpInst::Predicate P, const Val& a, const Val& b) {
    if (P == CmpInst::FCMP_TRUE) return vInt(1, 1);
    if (P == CmpInst::FCMP_FALSE) return vInt(0, 1);
    if (a.k == Val::Undef || b.k == Val::Undef || a.k == Val::Pieces || b.k == Val::Pieces) return vUndef(1);
    bool un = CmpInst::isUnordered(P);
    if (optFpMode) {
        if (a.k == Val::Fp && b.k == Val::Fp) {
            double x = a.fp(), y = b.fp();
            bool nan = std::isnan(x) || std::isnan(y), r;
            switch (P) {
                case CmpInst::FCMP_OEQ: r = x == y; break;
                case CmpInst::FCMP_OGT: r = x > y; break;
                case CmpInst::FCMP_OGE: r = x >= y; break;
                case CmpInst::FCMP_OLT: r = x < y; break;
                case CmpInst::FCMP_OLE: r = x <= y; break;
                case CmpInst::FCMP_ONE: r = !nan && x != y; break;
                case CmpInst::FCMP_ORD: r = !nan; break;
                case CmpInst::FCMP_UNO: r = nan; break;
                case CmpInst::FCMP_UEQ: r = nan || x == y; break;
                case CmpInst::FCMP_UGT: r = nan || x > y; break;
                case CmpInst::FCMP_UGE: r = nan || x >= y; break;
                case CmpInst::FCMP_ULT: r = nan || x < y; break;
                case CmpInst::FCMP_ULE: r = nan || x <= y; break;
                default: r = nan || x != y; break;
            }
            return vInt(r, 1);
        }
        z3::expr x = fpEx(a), y = fpEx(b);
        z3::expr nan = z3::expr(*Z, Z3_mk_fpa_is_nan(*Z, x)) || z3::expr(*Z, Z3_mk_fpa_is_nan(*Z, y));
        z3::expr eq(*Z, Z3_mk_fpa_eq(*Z, x, y)), lt(*Z, Z3_mk_fpa_lt(*Z, x, y)), gt(*Z, Z3_mk_fpa_gt(*Z, x, y)), le(*Z, Z3_mk_fpa_leq(*Z, x, y)), ge(*Z, Z3_mk_fpa_geq(*Z, x, y));
        z3::expr r = eq;
        switch (P) {
            case CmpInst::FCMP_OEQ: case CmpInst::FCMP_UEQ: r = eq; break;
            case CmpInst::FCMP_OGT: case CmpInst::FCMP_UGT: r = gt; break;
            case CmpInst::FCMP_OGE: case CmpInst::FCMP_UGE: r = ge; break;
            case CmpInst::FCMP_OLT: case CmpInst::FCMP_ULT: r = lt; break;
            case CmpInst::FCMP_OLE: case CmpInst::FCMP_ULE: r = le; break;
            case CmpInst::FCMP_ONE: case CmpInst::FCMP_UNE: r = !eq && !nan; break;
            case CmpInst::FCMP_ORD: return vBool(!nan);
            default: return vBool(nan);
        }
        return vBool(un ? (r || nan) : r);
    }
    RFp x = a.real(), y = b.real();
    bool nan = x->sp == rf::RF::NANV || y->sp == rf::RF::NANV;
    if (P == CmpInst::FCMP_ORD) return vInt(!nan, 1);
    if (P == CmpInst::FCMP_UNO) return vInt(nan, 1);
    if (nan) return vInt(un, 1);
    char op;
    switch (P) {
        case CmpInst::FCMP_OEQ: case CmpInst::FCMP_UEQ: op = '='; break;
        case CmpInst::FCMP_OGT: case CmpInst::FCMP_UGT: op = '>'; break;
        case CmpInst::FCMP_OGE: case CmpInst::FCMP_UGE: op = 'g'; break;
        case CmpInst::FCMP_OLT: case CmpInst::FCMP_ULT: op = '<'; break;
        case CmpInst::FCMP_OLE: case CmpInst::FCMP_ULE: op = 'l'; break;
        default: op = '!';
    }
    if (x->sp || y->sp) {
        int i = x->sp == rf::RF::PINF ? 1 : x->sp == rf::RF::NINF ? -1 : 0, j = y->sp == rf::RF::PINF ? 1 : y->sp == rf::RF::NINF ? -1 : 0;
        int sg = i < j ? -1 : i > j ? 1 : 0;
        bool r = op == '<' ? sg < 0 : op == '>' ? sg > 0 : op == 'l' ? sg <= 0 : op == 'g' ? sg >= 0 : op == '=' ? sg == 0 : sg != 0;
        return vInt(r, 1);
    }
    return vBool(cmpEx(s, x, y, op));
}
static Val fneg(const Val& a) {
    if (a.k == Val::Undef || a.k == Val::Pieces) return vUndef(a.bits);
    if (optFpMode) { if (a.k == Val::Fp) return vFp(-a.fp(), a.bits); return vEx(Val::SFp, -a.ex(), a.bits); }
    RFp r = a.real();
    if (r->sp) return vReal(rf::mksp(r->sp == rf::RF::PINF ? rf::RF::NINF : r->sp == rf::RF::NINF ? rf::RF::PINF : rf::RF::NANV), a.bits);
    return vReal(rf::neg(r), a.bits);
}
static Val fabsV(State& s, const Val& a) {
    if (a.k == Val::Undef || a.k == Val::Pieces) return vUndef(a.bits);
    if (optFpMode) { if (a.k == Val::Fp) return vFp(fabs(a.fp()), a.bits); return vEx(Val::SFp, z3::expr(*Z, Z3_mk_fpa_abs(*Z, a.ex())), a.bits); }
    RFp r = a.real();
    if (r->sp) return r->sp == rf::RF::NINF ? vReal(rf::mksp(rf::RF::PINF), a.bits) : a;
    bool neg = r->c ? r->v < 0 : decide(s, cmpEx(s, r, rf::mkc(0), '<'));
    return neg ? fneg(a) : a;
}
static Val froundV(State& s, const Val& a, char mode) {
    if (a.k == Val::Undef || a.k == Val::Pieces) return vUndef(a.bits);
    if (optFpMode) {
        if (a.k == Val::Fp) { double d = a.fp(); return vFp(mode == 'f' ? floor(d) : mode == 'c' ? ceil(d) : mode == 't' ? trunc(d) : round(d), a.bits); }
        Val r = freshFp(a.bits);
        Z3_ast rm = mode == 'f' ? Z3_mk_fpa_rtn(*Z) : mode == 'c' ? Z3_mk_fpa_rtp(*Z) : mode == 't' ? Z3_mk_fpa_rtz(*Z) : Z3_mk_fpa_rna(*Z);
        z3::expr rme(*Z, rm);
        {
            auto le = [&](const z3::expr& p, const z3::expr& q) { return z3::expr(*Z, Z3_mk_fpa_leq(*Z, p, q)); };
            auto isnan = [&](const z3::expr& t) { return z3::expr(*Z, Z3_mk_fpa_is_nan(*Z, t)); };
            z3::expr z = fpEx(vFp(0, a.bits)), v = a.ex(), e = r.ex();
            s.lems.push_back(isnan(e) == isnan(v));
            if (mode == 'c') s.lems.push_back(isnan(v) || le(v, e));
            if (mode == 'f') s.lems.push_back(isnan(v) || le(e, v));
            s.lems.push_back(z3::implies(le(z, v), le(z, e)));
            s.lems.push_back(z3::implies(le(v, z), le(e, z)));
        }
        s.defs.push_back(r.ex() == z3::expr(*Z, Z3_mk_fpa_round_to_integral(*Z, rme, a.ex())));
        return r;
    }
    return vReal(roundReal(s, a.real(), mode), a.bits);
}
static Val fpToInt(State& s, const Val& a, unsigned bits, bool sgnd) {
    auto freshBV = [&]() { return vEx(Val::SInt, Z->bv_const(("bv!" + std::to_string(freshCnt++)).c_str(), bits), bits); };
    if (a.k == Val::Undef || a.k == Val::Pieces) return vUndef(bits);
    if (optFpMode) {
        if (a.k == Val::Fp) {
            double d = trunc(a.fp());
            double lo = sgnd ? -ldexp(1, bits - 1) : 0, hi = sgnd ? ldexp(1, bits - 1) : ldexp(1, bits);
            if (!(d >= lo && d < hi)) return freshBV();
            return vInt(sgnd ? (uint64_t)(int64_t)d : (uint64_t)d, bits);
        }
        Val r = freshBV();
        z3::expr rtz(*Z, Z3_mk_fpa_rtz(*Z));
        double lo = sgnd ? -ldexp(1, bits - 1) : 0, hi = sgnd ? ldexp(1, bits - 1) : ldexp(1, bits);
        z3::expr inr(*Z, Z3_mk_fpa_leq(*Z, fpEx(vFp(lo, a.bits)), a.ex()));
        inr = inr && z3::expr(*Z, Z3_mk_fpa_lt(*Z, a.ex(), fpEx(vFp(hi, a.bits))));
        s.defs.push_back(z3::implies(inr, r.ex() == (sgnd ? z3::expr(*Z, Z3_mk_fpa_to_sbv(*Z, rtz, a.ex(), bits)) : z3::expr(*Z, Z3_mk_fpa_to_ubv(*Z, rtz, a.ex(), bits)))));
        return r;
    }
    RFp r = a.real();
    if (r->sp) return freshBV();
    if (r->c) {
        mpz_class z = r->v < 0 ? ceilq(r->v) : floorq(r->v);
        mpz_class lo = 0, hi = 1;
        hi <<= sgnd ? bits - 1 : bits;
        if (sgnd) lo = -hi;
        if (z < lo || z >= hi) return freshBV();
        uint64_t v = mpz_class(abs(z)).get_ui();
        return vInt(z < 0 ? (uint64_t)(-(int64_t)v) : v, bits);
    }
    const int BIG = s.roundTail > 1 ? s.roundTail - 1 : 1;
    if (decide(s, cmpEx(s, r, rf::mkc(BIG), 'g'))) {
        Val h = freshBV();
        s.pc.push_back(sgnd ? h.ex() >= Z->bv_val(BIG, bits) : z3::uge(h.ex(), Z->bv_val(BIG, bits)));
        if (bits > 32) s.pc.push_back(z3::ule(h.ex(), Z->bv_val((uint64_t)1 << (bits - 2), bits)));  // wider values are the floating point jobs' business
        return h;
    }
    if (decide(s, cmpEx(s, r, rf::mkc(-BIG), 'l'))) return freshBV();
    RFp t = roundReal(s, r, 't');
    if (!t->c) {  // depends on integer variables: case split on the value
        if (query(s, Z->bool_val(true), true) != z3::sat) throw PathEnd{};
        mpq_class v = modelVal(*lastModel, polyEx(t->num));
        z3::expr eq = cmpEx(s, t, rf::mkc(v), '=');
        if (query(s, !eq) != z3::unsat) { State* o = forkState(s); o->pc.push_back(!eq); }
        s.pc.push_back(eq);
        t = rf::mkc(v);
    }
    if (t->v < 0 && !sgnd) return freshBV();
    long v = t->v.get_num().get_si();
    return vInt((uint64_t)v, bits);
}

// ------------------------------------------------------------------------------------ integers
static uint64_t clz(uint64_t v, unsigned b) { for (unsigned i = 0; i < b; ++i) if (v >> (b - 1 - i) & 1) return i; return b; }
static uint64_t ctz(uint64_t v, unsigned b) { for (unsigned i = 0; i < b; ++i) if (v >> i & 1) return i; return b; }
static Val ibin(State& s, unsigned opc, Val a, Val b, unsigned bits) {
    auto fixReal = [&](Val& v) { if (v.k == Val::Real || v.k == Val::Fp) { uint64_t r; if (realToBits(v, r)) v = vInt(r, bits); else unsup("bit operation on a symbolic floating point value"); } };
    if (bits > 64) {
        a = toPieces(a); b = toPieces(b);
    }
    if (a.k == Val::Pieces || b.k == Val::Pieces) {
        // byte-wise handling of shifts and masks
        if (opc == Instruction::LShr || opc == Instruction::Shl) {
            Val bb = b.k == Val::Pieces ? sliceLoad(b.pieces(), 0, 8, false) : b;
            if (bb.k == Val::Int && bb.u % 8 == 0) {
                Val pa = toPieces(a);
                const Slice& p = pa.pieces();
                unsigned n = bits / 8, sh = bb.u / 8;
                Slice r(n);
                for (unsigned i = 0; i < n; ++i) { r.fl[i] = 1; r.d[i] = 0; }
                if (sh < n) { if (opc == Instruction::LShr) slicePut(r, 0, sliceGet(p, sh, n - sh)); else slicePut(r, sh, sliceGet(p, 0, n - sh)); }
                return piecesNorm(r, bits);
            }
        }
        if (opc == Instruction::Or || opc == Instruction::And) {
            Val pa = toPieces(a), pb = toPieces(b);
            const Slice &x = pa.pieces(), &y = pb.pieces();
            unsigned n = bits / 8;
            Slice r(n);
            auto isv = [](const Slice& q, unsigned i, uint8_t v) { return q.fl[i] == 1 && q.d[i] == v; };
            uint8_t id = opc == Instruction::Or ? 0 : 0xff;
            for (unsigned i = 0; i < n; ++i) {
                const Slice* src = isv(y, i, id) ? &x : isv(x, i, id) ? &y : nullptr;
                if (src) {
                    if (src->fl[i] >= 2) {
                        if (src->fl[i] == 2) {
                            Val c = src->cells.at(i);
                            unsigned sz = c.bits / 8;
                            const Slice* oth = src == &x ? &y : &x;
                            bool ok = i + sz <= n;
                            for (unsigned k = 0; ok && k < sz; ++k) ok = isv(*oth, i + k, id);
                            if (!ok) return vUndef(bits);
                            slicePut(r, i, sliceGet(*src, i, sz));
                            i += sz - 1;
                        } else return vUndef(bits);
                    } else { r.d[i] = src->d[i]; r.fl[i] = src->fl[i]; }
                } else if (opc == Instruction::And && (isv(x, i, 0) || isv(y, i, 0))) { r.fl[i] = 1; r.d[i] = 0; }
                else if (x.fl[i] == 1 && y.fl[i] == 1) { r.fl[i] = 1; r.d[i] = opc == Instruction::Or ? x.d[i] | y.d[i] : x.d[i] & y.d[i]; }
                else r.fl[i] = 0;
            }
            return piecesNorm(r, bits);
        }
        return vUndef(bits);
    }
    if (a.k == Val::Undef || b.k == Val::Undef) {
        // masks with known absorbing operands keep their value
        if (opc == Instruction::And && ((a.k == Val::Int && a.u == 0) || (b.k == Val::Int && b.u == 0))) return vInt(0, bits);
        if (bits == 1 && opc == Instruction::Or && ((a.k == Val::Int && a.u == 1) || (b.k == Val::Int && b.u == 1))) return vInt(1, 1);
        return vUndef(bits);
    }
    fixReal(a); fixReal(b);
    if (opc == Instruction::UDiv || opc == Instruction::SDiv || opc == Instruction::URem || opc == Instruction::SRem) {
        if (b.k == Val::Int) { if (b.u == 0) memFault(s, "div-by-zero", "integer division by zero"); }
        else {
            z3::expr z = b.ex() == Z->bv_val(0, bits);
            if (query(s, z) != z3::unsat) {
                reportPath(s, "memory", "div-by-zero", "integer division by zero", z);
                if (query(s, !z) == z3::unsat) throw PathEnd{};
                s.pc.push_back(!z);
            }
        }
    }
    if (a.k == Val::Int && b.k == Val::Int) {
        uint64_t x = a.u, y = b.u, r = 0;
        int64_t sx = sext(x, bits), sy = sext(y, bits);
        switch (opc) {
            case Instruction::Add: r = x + y; break;
            case Instruction::Sub: r = x - y; break;
            case Instruction::Mul: r = x * y; break;
            case Instruction::UDiv: r = x / y; break;
            case Instruction::URem: r = x % y; break;
            case Instruction::SDiv: r = sy == -1 ? (uint64_t)0 - x : (uint64_t)(sx / sy); break;
            case Instruction::SRem: r = sy == -1 ? 0 : (uint64_t)(sx % sy); break;
            case Instruction::And: r = x & y; break;
            case Instruction::Or: r = x | y; break;
            case Instruction::Xor: r = x ^ y; break;
            case Instruction::Shl: if (y >= bits) return vUndef(bits); r = x << y; break;
            case Instruction::LShr: if (y >= bits) return vUndef(bits); r = x >> y; break;
            case Instruction::AShr: if (y >= bits) return vUndef(bits); r = (uint64_t)(sx >> y); break;
        }
        return vInt(r, bits);
    }
    z3::expr x = toBV(a), y = toBV(b);
    uint64_t prov = a.k == Val::SInt ? a.u : 0;
    if (!prov && b.k == Val::SInt) prov = b.u;
    if (bits == 1) {
        switch (opc) {
            case Instruction::And: case Instruction::Mul: return vBool(x && y);
            case Instruction::Or: return vBool(x || y);
            case Instruction::Xor: case Instruction::Add: case Instruction::Sub: return vBool(x != y);
            default: unsup("i1 operation");
        }
    }
    switch (opc) {
        case Instruction::Add: return vBV(x + y, bits, prov);
        case Instruction::Sub: return vBV(x - y, bits, prov);
        case Instruction::Mul: return vBV(x * y, bits);
        case Instruction::UDiv: return vBV(z3::udiv(x, y), bits);
        case Instruction::URem: return vBV(z3::urem(x, y), bits);
        case Instruction::SDiv: return vBV(x / y, bits);
        case Instruction::SRem: return vBV(z3::srem(x, y), bits);
        case Instruction::And: return vBV(x & y, bits);
        case Instruction::Or: return vBV(x | y, bits);
        case Instruction::Xor: return vBV(x ^ y, bits);
        case Instruction::Shl: return vBV(z3::shl(x, y), bits);
        case Instruction::LShr: return vBV(z3::lshr(x, y), bits);
        case Instruction::AShr: return vBV(z3::ashr(x, y), bits);
    }
    unsup("integer operation");
}
static Val icmp(State& s, CmpInst::Predicate P, Val a, Val b) {
    unsigned bits = a.bits;
    if (a.k == Val::Real && b.k == Val::Int && !a.real()->sp) {  // the sign bit of a floating point value (a zero counts as positive)
        if (P == CmpInst::ICMP_SLT && b.u == 0) return fcmp(s, CmpInst::FCMP_OLT, a, bitsToFp(0, bits));
        if (P == CmpInst::ICMP_SGT && sext(b.u, bits) == -1) return fcmp(s, CmpInst::FCMP_OGE, a, bitsToFp(0, bits));
    }
    for (Val* v : {&a, &b}) {
        if (v->k == Val::Real || v->k == Val::Fp) { uint64_t r; if (realToBits(*v, r)) *v = vInt(r, bits); else unsup("integer comparison of a symbolic floating point value"); }
        if (v->k == Val::Undef || v->k == Val::Pieces) return vUndef(1);
    }
    if (a.k == Val::Int && b.k == Val::Int) {
        uint64_t x = a.u, y = b.u;
        int64_t sx = sext(x, bits), sy = sext(y, bits);
        bool r;
        switch (P) {
            case CmpInst::ICMP_EQ: r = x == y; break;
            case CmpInst::ICMP_NE: r = x != y; break;
            case CmpInst::ICMP_UGT: r = x > y; break;
            case CmpInst::ICMP_UGE: r = x >= y; break;
            case CmpInst::ICMP_ULT: r = x < y; break;
            case CmpInst::ICMP_ULE: r = x <= y; break;
            case CmpInst::ICMP_SGT: r = sx > sy; break;
            case CmpInst::ICMP_SGE: r = sx >= sy; break;
            case CmpInst::ICMP_SLT: r = sx < sy; break;
            default: r = sx <= sy; break;
        }
        return vInt(r, 1);
    }
    z3::expr x = toBV(a), y = toBV(b);
    switch (P) {
        case CmpInst::ICMP_EQ: return vBool(x == y);
        case CmpInst::ICMP_NE: return vBool(x != y);
        default: break;
    }
    if (bits == 1) unsup("ordered i1 comparison");
    switch (P) {
        case CmpInst::ICMP_UGT: return vBool(z3::ugt(x, y));
        case CmpInst::ICMP_UGE: return vBool(z3::uge(x, y));
        case CmpInst::ICMP_ULT: return vBool(z3::ult(x, y));
        case CmpInst::ICMP_ULE: return vBool(z3::ule(x, y));
        case CmpInst::ICMP_SGT: return vBool(x > y);
        case CmpInst::ICMP_SGE: return vBool(x >= y);
        case CmpInst::ICMP_SLT: return vBool(x < y);
        default: return vBool(x <= y);
    }
}
static Val castOp(State& s, unsigned opc, const Val& a, TyInfo to, Type* fromT) {
    TyInfo from = tyInfo(fromT);
    switch (opc) {
        case Instruction::Trunc:
            if (a.k == Val::Int) return vInt(a.u, to.bits);
            if (a.k == Val::SInt) return to.bits == 1 ? vBool(a.ex().extract(0, 0) == Z->bv_val(1, 1)) : vBV(a.ex().extract(to.bits - 1, 0), to.bits);
            if (a.k == Val::Pieces || a.k == Val::Real || a.k == Val::Fp || a.k == Val::SFp) {
                if (to.bits % 8 == 0) return piecesNorm(sliceGet(toPieces(a).pieces(), 0, to.bits / 8), to.bits);
                if (a.k == Val::Pieces) { Val x = sliceLoad(a.pieces(), 0, (to.bits + 7) / 8, false); if (x.k == Val::Int) return vInt(x.u, to.bits); if (x.k == Val::SInt && to.bits == 1) return vBool(x.ex().extract(0, 0) == Z->bv_val(1, 1)); }
            }
            return vUndef(to.bits);
        case Instruction::ZExt:
            if (to.bits > 64) {
                if (a.k == Val::Undef) return vUndef(to.bits);
                Slice r(to.bits / 8);
                for (auto& f : r.fl) f = 1;
                slicePut(r, 0, toPieces(a).pieces());
                return piecesNorm(r, to.bits);
            }
            if (a.k == Val::Int) return vInt(a.u, to.bits);
            if (a.k == Val::SInt) {
                if (a.bits == 1) return vInt(truth(s, a, "branch"), to.bits);
                return vBV(z3::zext(a.ex(), to.bits - a.bits), to.bits);
            }
            if (a.k == Val::Pieces) { Slice r(to.bits / 8); for (auto& f : r.fl) f = 1; slicePut(r, 0, a.pieces()); return piecesNorm(r, to.bits); }
            if (a.k == Val::Undef && a.bits && a.bits % 8 == 0) { Slice r(to.bits / 8); for (unsigned i = a.bits / 8; i < to.bits / 8; ++i) r.fl[i] = 1; return piecesNorm(r, to.bits); }
            if (a.k == Val::Real) { Slice r(to.bits / 8); for (auto& f : r.fl) f = 1; slicePut(r, 0, toPieces(a).pieces()); return piecesNorm(r, to.bits); }
            return vUndef(to.bits);
        case Instruction::SExt:
            if (a.k == Val::Int) return vInt((uint64_t)sext(a.u, a.bits), to.bits);
            if (a.k == Val::SInt) { if (a.bits == 1) return vInt(truth(s, a, "branch") ? ~0ull : 0, to.bits); return vBV(z3::sext(a.ex(), to.bits - a.bits), to.bits); }
            return vUndef(to.bits);
        case Instruction::PtrToInt: case Instruction::IntToPtr: {
            if (to.bits == from.bits) return a;
            if (a.k == Val::Int) return vInt(a.u, to.bits);
            unsup("pointer cast");
        }
        case Instruction::BitCast: case Instruction::AddrSpaceCast: {
            if (from.k == to.k && from.bits == to.bits && to.k != TAgg) return a;
            if (a.k == Val::Undef) return vUndef(to.bits);
            if (a.k == Val::Agg) { Slice m(from.bytes); storeTyped(m, 0, fromT, a); return to.k == TAgg ? vUndef() : sliceLoad(m, 0, to.bytes, to.k != TInt); }
            if (to.k == TF64 || to.k == TF32) {
                if (a.k == Val::Int) return bitsToFp(a.u, to.bits);
                if (a.k == Val::Real || a.k == Val::Fp || a.k == Val::SFp) return a;
                if (a.k == Val::SInt) unsup("integer term reinterpreted as floating point");
            }
            if (to.k == TInt) return a;
            unsup("bitcast");
        }
        case Instruction::SIToFP: case Instruction::UIToFP: {
            if (a.k == Val::Undef || a.k == Val::Pieces) return vUndef(to.bits);
            uint64_t v = concretize(s, a, "conversion");
            if (optFpMode) { double d = opc == Instruction::SIToFP ? (double)sext(v, a.bits) : (double)v; return vFp(to.bits == 32 ? (double)(float)d : d, to.bits); }
            mpz_class z;
            if (opc == Instruction::SIToFP) z = mpz_class((long)sext(v, a.bits)); else z = mpz_class((unsigned long)v);
            return vReal(rf::mkc(mpq_class(z)), to.bits);
        }
        case Instruction::FPToSI: return fpToInt(s, a, to.bits, true);
        case Instruction::FPToUI: return fpToInt(s, a, to.bits, false);
        case Instruction::FPExt: {
            Val r = a; r.bits = to.bits;
            if (a.k == Val::SFp) return vEx(Val::SFp, z3::expr(*Z, Z3_mk_fpa_to_fp_float(*Z, rne(), a.ex(), fpSort(to.bits))), to.bits);
            return r;
        }
        case Instruction::FPTrunc: {
            if (a.k == Val::Undef || a.k == Val::Pieces) return vUndef(to.bits);
            if (optFpMode) {
                if (a.k == Val::Fp) return vFp((double)(float)a.fp(), to.bits);
                Val r = freshFp(to.bits);
                s.defs.push_back(r.ex() == z3::expr(*Z, Z3_mk_fpa_to_fp_float(*Z, rne(), a.ex(), fpSort(to.bits))));
                return r;
            }
            Val r = a; r.bits = to.bits;
            RFp x = a.real();
            if (optTrunc == "exact" || x->sp) return r;
            if (x->c) { double d = x->v.get_d(); float f = (float)d; if (mpq_class((double)f) == x->v) return r; return vReal(rf::mkc(mpq_class((double)f)), to.bits); }
            // narrowing of a symbolic value: result within relative 2^-24 of it
            z3::expr e(*Z);
            RFp y = freshReal(&e);
            z3::expr t = realEx(x);
            mpq_class eps(1, 1 << 24);
            s.pc.push_back(e - t <= mpqEx(eps) * z3::ite(t >= 0, t, -t) && t - e <= mpqEx(eps) * z3::ite(t >= 0, t, -t));
            return vReal(y, to.bits);
        }
    }
    unsup("cast");
}

// ------------------------------------------------------------------------------------ calls and control flow
static Val opv(Frame& f, const Op& o) { return o.reg >= 0 ? f.regs[o.reg] : o.c; }
static void jump(State& s, int target) {
    Frame& f = s.top();
    int prev = f.bb;
    f.prev = prev;
    f.bb = target;
    f.ip = 0;
    auto& b = f.f->bb[target];
    vector<std::pair<int, Val>> upd;
    while (f.ip < (int)b.in.size() && b.in[f.ip].opc == Instruction::PHI) {
        auto& in = b.in[f.ip];
        for (size_t i = 0; i < in.gidx.size(); ++i) if (in.gidx[i].first == prev) { upd.push_back({in.dst, opv(f, in.ops[i])}); break; }
        ++f.ip;
    }
    for (auto& u : upd) f.regs[u.first] = u.second;
}
static void pushFrame(State& s, Function* F, const vector<Val>& args, const CallBase* cb) {
    FInfo* fi = finfo(F);
    fi->calls++;
    if (s.th[s.cur].fr.size() > 4000) unsup("call depth");
    Frame fr;
    fr.f = fi;
    fr.regs.resize(fi->nregs);
    for (unsigned i = 0; i < F->arg_size() && i < args.size(); ++i) fr.regs[i] = args[i];
    vector<uint64_t> allocs;
    for (unsigned i = 0; i < F->arg_size() && i < args.size(); ++i)
        if (F->getArg(i)->hasByValAttr()) {
            uint64_t n = DL->getTypeAllocSize(F->getArg(i)->getParamByValType());
            Obj& src = resolve(s, args[i].u, n, false, "by-value argument");
            Slice sl = sliceGet(src.m, args[i].u - src.base, n);
            uint64_t a = allocObj(s, n, OStack, 16);
            slicePut(s.mem[a]->m, 0, sl);
            fr.regs[i] = vInt(a, 64);
            allocs.push_back(a);
        }
    fr.allocas = allocs;
    s.th[s.cur].fr.push_back(std::move(fr));
}
static void popAllocas(State& s) {
    Frame& f = s.top();
    for (auto a : f.allocas) { auto it = s.mem.find(a); if (it != s.mem.end()) { shadowClear(s, a, it->second->size); s.mem.erase(it); } }
    // reuse of stack addresses keeps states comparable
    if (!f.allocas.empty()) s.th[s.cur].snext = *std::min_element(f.allocas.begin(), f.allocas.end()) & ~0xffull;
}
static void finishCall(State& s, const Val& ret) {  // top frame is the caller, positioned at the call
    Frame& f = s.top();
    IInfo& in = f.f->bb[f.bb].in[f.ip];
    if (in.dst >= 0) f.regs[in.dst] = ret;
    if (in.opc == Instruction::Invoke) jump(s, in.b0);
    else ++f.ip;
}
struct JobDone {};
static void threadReturn(State& s);
static void doReturn(State& s, const Val& ret) {
    popAllocas(s);
    bool again = s.top().again;
    s.th[s.cur].fr.pop_back();
    if (s.th[s.cur].fr.empty()) { threadReturn(s); return; }
    if (!again) finishCall(s, ret);
}

// exceptions
static string tiParent(const string& n) {
    static const std::map<string, string> H = {
        {"_ZTISt13runtime_error", "_ZTISt9exception"}, {"_ZTISt11logic_error", "_ZTISt9exception"},
        {"_ZTISt12domain_error", "_ZTISt11logic_error"}, {"_ZTISt12length_error", "_ZTISt11logic_error"},
        {"_ZTISt12out_of_range", "_ZTISt11logic_error"}, {"_ZTISt16invalid_argument", "_ZTISt11logic_error"},
        {"_ZTISt9bad_alloc", "_ZTISt9exception"}, {"_ZTISt20bad_array_new_length", "_ZTISt9bad_alloc"},
        {"_ZTISt11range_error", "_ZTISt13runtime_error"}, {"_ZTISt14overflow_error", "_ZTISt13runtime_error"},
        {"_ZTISt15underflow_error", "_ZTISt13runtime_error"},
        {"_ZTISt12system_error", "_ZTISt13runtime_error"}, {"_ZTISt12future_error", "_ZTISt11logic_error"},
        {"_ZTISt18bad_variant_access", "_ZTISt9exception"}, {"_ZTISt17bad_function_call", "_ZTISt9exception"},
        {"_ZTISt8bad_cast", "_ZTISt9exception"}, {"_ZTISt19bad_optional_access", "_ZTISt9exception"}};
    auto it = H.find(n);
    if (it != H.end()) return it->second;
    // class type info defined in the module: third word is the base
    if (auto* g = M->getNamedGlobal(n)) if (g->hasInitializer()) if (auto* st = dyn_cast<ConstantStruct>(g->getInitializer()))
        if (st->getNumOperands() >= 3) if (auto* p = dyn_cast<GlobalVariable>(st->getOperand(2)->stripPointerCasts())) return p->getName().str();
    return "";
}
static bool tiMatch(string thrown, const string& want) {
    while (!thrown.empty()) { if (thrown == want) return true; thrown = tiParent(thrown); }
    return false;
}
static std::map<string, uint64_t> synthTI;  // type infos used only by library throws
static uint64_t tiAddr(const string& n) {
    if (auto* g = M->getNamedGlobal(n)) { uint64_t a = globalAddr(g); TIname[a] = n; return a; }
    auto it = synthTI.find(n);
    if (it != synthTI.end()) return it->second;
    gnext += 4096;
    uint64_t a = gnext;
    gnext += 4096;
    synthTI[n] = a;
    TIname[a] = n;
    return a;
}
static int matchLP(LandingPadInst* lp, const string& thrown, uint64_t& sel) {  // 0 none 1 cleanup 2 catch
    for (unsigned i = 0; i < lp->getNumClauses(); ++i) {
        if (lp->isCatch(i)) {
            Value* c = lp->getClause(i)->stripPointerCasts();
            if (isa<ConstantPointerNull>(c)) { sel = 1; return 2; }
            string n = cast<GlobalValue>(c)->getName().str();
            if (tiMatch(thrown, n)) { sel = tiAddr(n); return 2; }
        } else {
            auto* T = cast<ArrayType>(lp->getClause(i)->getType());
            if (T->getNumElements() == 0) { sel = ~0u; return 2; }
        }
    }
    return lp->isCleanup() ? 1 : 0;
}
static void terminateViol(State& s, const string& why) {
    reportPath(s, "exception", "terminate", why, Z->bool_val(true));
    throw PathEnd{};
}
static LandingPadInst* lpOf(Frame& f) {
    IInfo& in = f.f->bb[f.bb].in[f.ip];
    if (in.opc != Instruction::Invoke) return nullptr;
    return cast<InvokeInst>(in.I)->getLandingPadInst();
}
static void unwind(State& s, uint64_t exc) {
    Thread& t = s.th[s.cur];
    string thrown = TIname[s.exc[exc].ti];
    bool handled = false;
    for (int i = (int)t.fr.size() - 1; i >= 0 && !handled; --i) {
        if (auto* lp = lpOf(t.fr[i])) { uint64_t sel; if (matchLP(lp, thrown, sel) == 2) handled = true; }
    }
    if (!handled) {
        reportPath(s, "exception", "uncaught", "exception of type " + demangle(thrown) + " escapes", Z->bool_val(true));
        throw PathEnd{};
    }
    while (!t.fr.empty()) {
        if (auto* lp = lpOf(t.fr.back())) {
            uint64_t sel = 0;
            int m = matchLP(lp, thrown, sel);
            if (m) {
                Frame& f = t.fr.back();
                IInfo& in = f.f->bb[f.bb].in[f.ip];
                int target = in.b1;
                jump(s, target);
                // position at landingpad
                IInfo& li = f.f->bb[f.bb].in[f.ip];
                if (li.dst >= 0) f.regs[li.dst] = vAgg({vInt(exc, 64), vInt(sel, 32)});
                ++f.ip;
                return;
            }
        }
        popAllocas(s);
        t.fr.pop_back();
    }
}
static void throwNew(State& s, const string& ti) {
    uint64_t a = allocObj(s, 64, OExc, 16);
    for (auto& f : s.mem[a]->m.fl) f = 1;
    s.exc[a] = ExcInfo{tiAddr(ti), 0, 0};
    unwind(s, a);
}

// ------------------------------------------------------------------------------------ checks
static std::unordered_map<string, int> eqMisses;
static rf::Poly substitute(const rf::Poly& p, const std::map<uint32_t, mpq_class>& val) {
    std::map<uint32_t, mpq_class> acc;
    for (auto& t : p.t) {
        mpq_class c = t.second;
        rf::Mono m;
        for (auto& ve : rf::MT().m[t.first]) {
            auto it = val.find(ve.first);
            if (it == val.end()) m.push_back(ve);
            else for (uint32_t k = 0; k < ve.second; ++k) c *= it->second;
        }
        acc[rf::MT().get(m)] += c;
    }
    rf::Poly r;
    for (auto& x : acc) if (x.second != 0) r.t.push_back({x.first, x.second});
    return r;
}
static void collectVars(const z3::expr& e, std::set<unsigned>& seen, std::set<string>& names) {
    if (!seen.insert(e.id()).second) return;
    if (e.is_app()) {
        if (e.num_args() == 0 && e.decl().decl_kind() == Z3_OP_UNINTERPRETED) names.insert(e.decl().name().str());
        for (unsigned i = 0; i < e.num_args(); ++i) collectVars(e.arg(i), seen, names);
    }
}
static uint64_t rng = 88172645463325252ull;
static uint64_t rnd() { rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17; return rng; }
static void checkZero(State& s, const RFp& d, const string& id) {
    checkCount[id]++;
    if (d->sp) { reportPath(s, "check", id, "values are not finite or not comparable", Z->bool_val(true)); return; }
    if (d->c && d->v == 0) { checkSyntactic[id]++; return; }
    if (violSeen("check", id)) return;
    if (d->c) { reportPath(s, "check", id, "values differ by " + std::to_string(d->v.get_d()), Z->bool_val(true)); return; }
    // variables constrained by the path stay symbolic, the others get concrete values
    std::set<unsigned> seen;
    std::set<string> names;
    for (auto& c : s.pc) collectVars(c, seen, names);
    std::set<uint32_t> used;
    for (auto& t : d->num.t) for (auto& ve : rf::MT().m[t.first]) used.insert(ve.first);
    for (int tr = 0; tr < 4; ++tr) {
        std::map<uint32_t, mpq_class> val;
        z3::expr fix = Z->bool_val(true);
        for (uint32_t v : used) if (!names.count(varEx[v].decl().name().str()) && !varInt[v]) {
            val[v] = mpq_class((long)(rnd() % 31) - 15);
            fix = fix && varEx[v] == mpqEx(val[v]);
        }
        rf::Poly p = substitute(d->num, val);
        if (p.zero()) continue;
        z3::expr e = polyEx(p);
        z3::expr scale = Z->real_val(1);
        if (!d->den.empty()) { rf::Poly q = substitute(rf::denPoly(d->den), val); scale = polyEx(q); }
        for (int w = 0; w < 2; ++w) {
            z3::expr bound = w == 0 ? scale * mpqEx(mpq_class(1)) : scale * mpqEx(mpq_class(1, 1000));
            z3::expr big = (e * e >= bound * bound);
            if (d->den.empty()) big = (e >= (w ? mpqEx(mpq_class(1, 1000)) : Z->real_val(1))) || (e <= (w ? mpqEx(mpq_class(-1, 1000)) : Z->real_val(-1)));
            if (query(s, fix && big && niceBounds(64), true) == z3::sat) { report(s, "check", id, "values differ", lastModel.get()); return; }
        }
    }
    z3::expr ne = polyEx(d->num) != 0;
    auto r = query(s, ne, true);
    if (r == z3::unsat) return;
    if (r == z3::sat) { report(s, "check", id, "values differ", lastModel.get()); return; }
    incomplete = "solver gave no answer for check " + id;
}
static void checkBool(State& s, const Val& v, const string& id) {
    checkCount[id]++;
    if (v.k == Val::Int) { if (!v.u) reportPath(s, "check", id, "condition is false", Z->bool_val(true)); else checkSyntactic[id]++; return; }
    if (v.k != Val::SInt) { reportPath(s, "check", id, "condition depends on uninitialised memory", Z->bool_val(true)); return; }
    z3::expr c = v.bits == 1 ? v.ex() : v.ex() != Z->bv_val(0, v.bits);
    auto r = query(s, !c);
    if (r == z3::unsat) return;
    if (r == z3::sat) reportPath(s, "check", id, "condition can be false", !c);
    else incomplete = "solver gave no answer for check " + id;
    if (query(s, c) == z3::unsat) throw PathEnd{};
    s.pc.push_back(c);
}

// ------------------------------------------------------------------------------------ externals
using Handler = std::function<bool(State&, IInfo&, vector<Val>&, Val&)>;
static vector<Handler> handlers;
static std::unordered_map<string, int> handlerIdx;
static void reg(std::initializer_list<const char*> names, Handler h) {
    handlers.push_back(h);
    for (auto n : names) handlerIdx[n] = handlers.size() - 1;
}
static string cstr(State& s, uint64_t a) {
    string r;
    while (true) {
        Obj& o = resolve(s, a, 1, false, "string");
        uint8_t c = o.m.d[a - o.base];
        if (!c) break;
        r += (char)c;
        ++a;
    }
    return r;
}
static const uint64_t ALLOC_LIMIT = 1ull << 40;
static std::map<uint64_t, Val> symSize;
static bool allocate(State& s, const Val& size, ObjKind k, uint64_t align, uint64_t& out) {
    if (size.k == Val::SInt) {
        z3::expr big = z3::ugt(size.ex(), Z->bv_val((uint64_t)ALLOC_LIMIT, 64));
        if (decide(s, big)) return false;
        uint64_t n = 4096;
        out = allocObj(s, n, k, align);
        symSize[out] = size;
        return true;
    }
    uint64_t n = concretize(s, size, "allocation size");
    if (n > ALLOC_LIMIT) return false;
    if (n > (1ull << 28)) unsup("very large allocation");
    out = allocObj(s, n, k, align);
    symSize.erase(out);
    return true;
}
static void memCopy(State& s, uint64_t d, uint64_t sr, uint64_t n, bool move) {
    if (!n) return;
    Obj& so = resolve(s, sr, n, false, "memcpy source");
    Slice sl = sliceGet(so.m, sr - so.base, n);
    if (!move && d != sr && d < sr + n && sr < d + n) memFault(s, "memcpy-overlap", "memcpy with overlapping arguments");
    Obj& dо = resolve(s, d, n, true, "memcpy destination");
    slicePut(dо.m, d - dо.base, sl);
}
static bool enabledThread(State& s, int i);
static void schedulePoint(State& s);
static Val selectVal(State& s, const Val& c, const Val& a, const Val& b) { return truth(s, c, "select") ? a : b; }
static Val arith(State& s, const Val& a, char m) { return froundV(s, a, m); }
static const Val& symInput(State& s, const string& name, char kind, uint64_t lo = 0, uint64_t hi = 0);
static std::map<string, Val> symVals;
static const Val& symInput(State& s, const string& name, char kind, uint64_t lo, uint64_t hi) {
    auto it = symVals.find(name);
    if (it == symVals.end()) {
        Val v;
        if (kind == 'u') { z3::expr e = Z->bv_const(name.c_str(), 64); inputs.push_back({name, 'u', 0, e}); v = vEx(Val::SInt, e, 64); }
        else if (kind == 'f' && optFpMode) { z3::expr e = Z->constant(name.c_str(), fpSort(64)); inputs.push_back({name, 'f', 0, e}); v = vEx(Val::SFp, e, 64); }
        else if (kind == 'i') {
            z3::expr e = z3::to_real(Z->int_const(name.c_str()));
            uint32_t id = newVar(e, true);
            inputs.push_back({name, 'i', id, e});
            v = vReal(rf::mkvar(id));
        } else {
            z3::expr e = Z->real_const(name.c_str());
            uint32_t id = newVar(e, false);
            inputs.push_back({name, 'r', id, e});
            v = vReal(rf::mkvar(id));
        }
        it = symVals.emplace(name, v).first;
    }
    if (kind == 'u') {
        z3::expr e = it->second.ex();
        s.pc.push_back(z3::uge(e, Z->bv_val((uint64_t)lo, 64)) && z3::ule(e, Z->bv_val((uint64_t)hi, 64)));
    }
    return it->second;
}
static void initHandlers() {
#define H [](State & s, IInfo & in, vector<Val> & a, Val & r) -> bool
    // --- harness interface
    reg({"sym_real"}, H { r = symInput(s, cstr(s, a[0].u), 'r'); return true; });
    reg({"sym_int"}, H { r = symInput(s, cstr(s, a[0].u), 'i'); return true; });
    reg({"sym_fp"}, H { r = symInput(s, cstr(s, a[0].u), 'f'); return true; });
    reg({"sym_real_idx"}, H { r = symInput(s, cstr(s, a[0].u) + std::to_string(concretize(s, a[1], "index")), 'r'); return true; });
    reg({"sym_u64"}, H { r = symInput(s, cstr(s, a[0].u), 'u', concretize(s, a[1], "bound"), concretize(s, a[2], "bound")); if (!feasiblePath(s)) throw PathEnd{}; return true; });
    reg({"sym_size", "sym_const"}, H { r = a[0]; return true; });
    reg({"sym_ratio"}, H {
        if (optFpMode) { r = vFp((double)(int64_t)a[0].u / (double)(int64_t)a[1].u); return true; }
        mpq_class q(mpz_class((long)a[0].u), mpz_class((long)a[1].u));
        q.canonicalize();
        r = vReal(rf::mkc(q));
        return true;
    });
    reg({"sym_assume"}, H {
        if (a[0].k == Val::Int) { if (!a[0].u) throw PathEnd{}; return true; }
        if (a[0].k != Val::SInt) memFault(s, "uninit-branch", "assumption on uninitialised value");
        z3::expr c = a[0].bits == 1 ? a[0].ex() : a[0].ex() != Z->bv_val(0, a[0].bits);
        if (query(s, c) == z3::unsat) throw PathEnd{};
        s.pc.push_back(c);
        return true;
    });
    reg({"sym_check"}, H { checkBool(s, a[0], cstr(s, a[1].u)); return true; });
    reg({"sym_check_eq"}, H {
        string id = cstr(s, a[2].u);
        if (a[0].k == Val::Undef || a[1].k == Val::Undef || a[0].k == Val::Pieces || a[1].k == Val::Pieces) { checkCount[id]++; reportPath(s, "check", id, "value depends on uninitialised memory", Z->bool_val(true)); return true; }
        if (optFpMode) {
            checkCount[id]++;
            if (a[0].k == Val::Fp && a[1].k == Val::Fp) { if (!(a[0].fp() == a[1].fp())) reportPath(s, "check", id, "values differ", Z->bool_val(true)); return true; }
            z3::expr e(*Z, Z3_mk_fpa_eq(*Z, fpEx(a[0]), fpEx(a[1])));
            if (query(s, !e) != z3::unsat) reportPath(s, "check", id, "values differ", !e);
            return true;
        }
        if (a[0].real()->sp || a[1].real()->sp) { checkCount[id]++; reportPath(s, "check", id, "value is infinite or not a number", Z->bool_val(true)); return true; }
        checkZero(s, rf::addsub(a[0].real(), a[1].real(), -1), id);
        return true;
    });
    reg({"sym_round_tail"}, H { s.roundTail = std::max<long>(2, concretize(s, a[0], "round tail")); return true; });
    reg({"sym_div_nonzero"}, H { s.divOk = concretize(s, a[0], "flag"); return true; });
    reg({"sym_reach"}, H { reach[cstr(s, a[0].u)]++; return true; });
    reg({"sym_use"}, H {  // the value is observable: it must be initialised
        if (a[0].k == Val::Undef || a[0].k == Val::Pieces) memFault(s, "uninit-result", "a result depends on uninitialised memory");
        return true; });
    reg({"sym_print"}, H {
        std::cerr << cstr(s, a[0].u) << " = ";
        if (a[1].k == Val::Real) { auto x = a[1].real(); if (x->sp) std::cerr << "special"; else if (x->c) std::cerr << x->v.get_d() << " [" << x->v.get_str() << "]"; else std::cerr << realEx(x).simplify(); }
        else if (a[1].k == Val::Fp) std::cerr << a[1].fp(); else if (a[1].k == Val::SFp) std::cerr << a[1].ex(); else std::cerr << "kind " << a[1].k;
        std::cerr << "\n"; return true; });
    reg({"sym_printu"}, H { std::cerr << cstr(s, a[0].u) << " = "; if (a[1].k == Val::Int) std::cerr << a[1].u; else if (a[1].k == Val::SInt) std::cerr << a[1].ex(); else std::cerr << "?"; std::cerr << "\n"; return true; });
    reg({"sym_mode"}, H { r = vInt(optFpMode ? 1 : 0, 32); return true; });
    reg({"sym_native"}, H { r = vInt(0, 32); return true; });
    reg({"sym_alloc_size"}, H {
        uint64_t p = concretize(s, a[0], "pointer");
        ObjP* o = findObj(s, p);
        if (!o) { r = vInt(0, 64); return true; }
        uint64_t off = p - (*o)->base;
        auto it = symSize.find((*o)->base);
        if (it == symSize.end()) r = vInt((*o)->size - off, 64);
        else r = vBV(it->second.ex() - Z->bv_val(off, 64), 64);
        return true; });
    reg({"sym_is_symbolic"}, H { r = vInt(a[0].k == Val::Int ? 0 : 1, 32); return true; });
    reg({"sym_concrete"}, H { r = vInt(concretize(s, a[0], "value"), 64); return true; });
    // --- allocation
    reg({"_Znwm", "_ZnwmRKSt9nothrow_t"}, H { uint64_t p; if (!allocate(s, a[0], OHeapNew, 16, p)) { throwNew(s, "_ZTISt9bad_alloc"); return false; } r = vInt(p, 64); return true; });
    reg({"_Znam"}, H { uint64_t p; if (!allocate(s, a[0], OHeapArr, 16, p)) { throwNew(s, "_ZTISt9bad_alloc"); return false; } r = vInt(p, 64); return true; });
    reg({"_ZnwmSt11align_val_t"}, H { uint64_t p; if (!allocate(s, a[0], OHeapNew, concretize(s, a[1], "alignment"), p)) { throwNew(s, "_ZTISt9bad_alloc"); return false; } r = vInt(p, 64); return true; });
    reg({"malloc"}, H { uint64_t p; if (!allocate(s, a[0], OHeapMalloc, 16, p)) p = 0; r = vInt(p, 64); return true; });
    reg({"aligned_alloc"}, H { uint64_t p; if (!allocate(s, a[1], OHeapMalloc, concretize(s, a[0], "alignment"), p)) p = 0; r = vInt(p, 64); return true; });
    reg({"calloc"}, H {
        uint64_t p, n = concretize(s, a[0], "size") * concretize(s, a[1], "size");
        if (!allocate(s, vInt(n, 64), OHeapMalloc, 16, p)) p = 0; else for (auto& f : s.mem[p]->m.fl) f = 1;
        r = vInt(p, 64); return true; });
    reg({"posix_memalign"}, H {
        uint64_t al = concretize(s, a[1], "alignment"), p;
        if (al < 8 || (al & (al - 1))) { r = vInt(22, 32); return true; }
        if (!allocate(s, a[2], OHeapMalloc, al, p)) { r = vInt(12, 32); return true; }
        Obj& o = resolve(s, a[0].u, 8, true, "posix_memalign");
        sliceStore(o.m, a[0].u - o.base, 8, vInt(p, 64));
        r = vInt(0, 32); return true; });
    reg({"_ZdlPv", "_ZdlPvm", "_ZdlPvSt11align_val_t", "_ZdlPvmSt11align_val_t"}, H {
        uint64_t p = concretize(s, a[0], "deleted pointer");
        if (p && in.callee && in.callee->getName() == "_ZdlPvm" && a[1].k == Val::Int) { auto it = s.mem.find(p); if (it != s.mem.end() && it->second->size != a[1].u && !symSize.count(p)) memFault(s, "bad-free", "sized delete with a size different from the allocation"); }
        freeObj(s, p, {OHeapNew}, "delete"); return true; });
    reg({"_ZdaPv", "_ZdaPvm"}, H { freeObj(s, concretize(s, a[0], "deleted pointer"), {OHeapArr}, "delete[]"); return true; });
    reg({"free"}, H { freeObj(s, concretize(s, a[0], "freed pointer"), {OHeapMalloc}, "free"); return true; });
    // --- memory intrinsics and libc
    reg({"memcpy"}, H { memCopy(s, addrOf(s, a[0], 0, "memcpy", true), addrOf(s, a[1], 0, "memcpy", false), concretize(s, a[2], "size"), false); r = a[0]; return true; });
    reg({"memmove"}, H { memCopy(s, addrOf(s, a[0], 0, "memmove", true), addrOf(s, a[1], 0, "memmove", false), concretize(s, a[2], "size"), true); r = a[0]; return true; });
    reg({"memset"}, H {
        uint64_t p = concretize(s, a[0], "memset"), n = concretize(s, a[2], "size");
        if (n) {
            Obj& o = resolve(s, p, n, true, "memset");
            sliceKill(o.m, p - o.base, n);
            for (uint64_t i = 0; i < n; ++i) { o.m.d[p - o.base + i] = (uint8_t)a[1].u; o.m.fl[p - o.base + i] = a[1].k == Val::Int ? 1 : 0; }
        }
        r = a[0]; return true; });
    reg({"memcmp", "bcmp"}, H {
        uint64_t p = concretize(s, a[0], "memcmp"), q = concretize(s, a[1], "memcmp"), n = concretize(s, a[2], "size");
        int c = 0;
        for (uint64_t i = 0; i < n && !c;) {
            Obj& x = resolve(s, p + i, 1, false); Obj& y = resolve(s, q + i, 1, false);
            Val u = sliceLoad(x.m, p + i - x.base, 1, false), v = sliceLoad(y.m, q + i - y.base, 1, false);
            if (u.k == Val::Int && v.k == Val::Int) { c = (int)u.u - (int)v.u; ++i; continue; }
            // symbolic: the widest word both sides hold as a whole
            uint64_t w = 8;
            for (; w; w /= 2) {
                if (i + w > n || p + i + w > x.base + x.size || q + i + w > y.base + y.size) continue;
                u = sliceLoad(x.m, p + i - x.base, w, false); v = sliceLoad(y.m, q + i - y.base, w, false);
                if ((u.k == Val::Int || u.k == Val::SInt) && (v.k == Val::Int || v.k == Val::SInt)) break;
            }
            if (!w) unsup("memcmp of symbolic memory");
            if (!truth(s, icmp(s, CmpInst::ICMP_EQ, u, v), "branch")) {
                if (in.callee && in.callee->getName() == "bcmp") c = 1;
                else {  // the first differing byte decides
                    auto swap = [&](const Val& a) { z3::expr e = toBV(a), r = e.extract(7, 0); for (unsigned k = 1; k < w; ++k) r = z3::concat(r, e.extract(8 * k + 7, 8 * k)); return r; };
                    c = truth(s, vBool(z3::ult(swap(u), swap(v))), "branch") ? -1 : 1;
                }
            }
            i += w;
        }
        r = vInt((uint64_t)(int64_t)c, 32); return true; });
    reg({"strlen"}, H { r = vInt(cstr(s, a[0].u).size(), 64); return true; });
    // --- math
    reg({"fmod", "fmodf"}, H { r = fbin(s, Instruction::FRem, a[0], a[1]); return true; });
    reg({"ceil", "ceilf"}, H { r = froundV(s, a[0], 'c'); return true; });
    reg({"floor", "floorf"}, H { r = froundV(s, a[0], 'f'); return true; });
    reg({"trunc", "truncf"}, H { r = froundV(s, a[0], 't'); return true; });
    reg({"round", "roundf"}, H { r = froundV(s, a[0], 'r'); return true; });
    reg({"fabs", "fabsf"}, H { r = fabsV(s, a[0]); return true; });
    reg({"lround", "llround", "lroundf"}, H { r = fpToInt(s, froundV(s, a[0], 'r'), 64, true); return true; });
    reg({"sqrt", "sqrtf"}, H {
        if (a[0].k == Val::Fp) { r = vFp(sqrt(a[0].fp()), a[0].bits); return true; }
        if (a[0].k == Val::Real && a[0].real()->c && !a[0].real()->sp) {
            mpq_class q = a[0].real()->v;
            double d = sqrt(q.get_d());
            r = q < 0 ? vReal(rf::mksp(rf::RF::NANV), a[0].bits) : vReal(rf::mkc(mpq_class(d)), a[0].bits);
            return true;
        }
        unsup("sqrt of a symbolic value"); return true; });
    reg({"pow"}, H {
        if (a[0].k == Val::Fp && a[1].k == Val::Fp) { r = vFp(pow(a[0].fp(), a[1].fp())); return true; }
        if (a[0].k == Val::Real && a[1].k == Val::Real && a[1].real()->c && a[1].real()->v.get_den() == 1 && abs(a[1].real()->v) <= 64) {
            long n = a[1].real()->v.get_num().get_si();
            RFp x = rf::mkc(1);
            for (long i = 0; i < labs(n); ++i) x = rf::mul(x, a[0].real());
            r = n >= 0 ? vReal(x) : fbin(s, Instruction::FDiv, vReal(rf::mkc(1)), vReal(x));
            return true;
        }
        unsup("pow"); return true; });
    reg({"modf", "modff"}, H {
        Val t = froundV(s, a[0], 't');
        unsigned n = a[0].bits / 8;
        uint64_t p = concretize(s, a[1], "pointer");
        Obj& o = resolve(s, p, n, true);
        sliceStore(o.m, p - o.base, n, t);
        r = fbin(s, Instruction::FSub, a[0], t); return true; });
    reg({"remainder", "remainderf"}, H {
        if (a[0].k == Val::Fp && a[1].k == Val::Fp) { r = vFp(remainder(a[0].fp(), a[1].fp())); return true; }
        if (optFpMode) { r = freshFp(64); return true; }
        RFp q = rf::div(a[0].real(), a[1].real());
        RFp k = roundReal(s, rf::addsub(q, rf::mkc(mpq_class(1, 2)), 1), 'f');
        r = vReal(rf::addsub(a[0].real(), rf::mul(k, a[1].real()), -1)); return true; });
    reg({"fma", "fmaf"}, H { r = fbin(s, Instruction::FAdd, fbin(s, Instruction::FMul, a[0], a[1]), a[2]); return true; });
    reg({"fmax", "fmaxf"}, H { r = selectVal(s, fcmp(s, CmpInst::FCMP_OLT, a[0], a[1]), a[1], a[0]); return true; });
    reg({"fmin", "fminf"}, H { r = selectVal(s, fcmp(s, CmpInst::FCMP_OLT, a[1], a[0]), a[1], a[0]); return true; });
    // --- exceptions
    reg({"__cxa_allocate_exception"}, H { uint64_t p = allocObj(s, concretize(s, a[0], "size"), OExc, 16); r = vInt(p, 64); return true; });
    reg({"__cxa_free_exception"}, H { s.mem.erase(a[0].u); return true; });
    reg({"__cxa_throw"}, H { s.exc[a[0].u] = ExcInfo{a[1].u, a[2].u, 0}; unwind(s, a[0].u); return false; });
    reg({"__cxa_begin_catch"}, H { s.th[s.cur].caught.push_back({a[0].u, 1}); r = a[0]; return true; });
    reg({"__cxa_get_exception_ptr"}, H { r = a[0]; return true; });
    reg({"__cxa_end_catch"}, H { if (!s.th[s.cur].caught.empty()) s.th[s.cur].caught.pop_back(); return true; });
    reg({"__cxa_rethrow"}, H { auto& c = s.th[s.cur].caught; if (c.empty()) terminateViol(s, "rethrow without an exception"); uint64_t e = c.back().first; unwind(s, e); return false; });
    reg({"_ZSt17current_exceptionv"}, H {  // sret exception_ptr
        auto& c = s.th[s.cur].caught;
        Obj& o = resolve(s, a[0].u, 8, true);
        sliceStore(o.m, a[0].u - o.base, 8, vInt(c.empty() ? 0 : c.back().first, 64)); return true; });
    reg({"_ZSt17rethrow_exceptionNSt15__exception_ptr13exception_ptrE"}, H {
        Obj& o = resolve(s, a[0].u, 8, false);
        Val p = sliceLoad(o.m, a[0].u - o.base, 8, false);
        unwind(s, p.u); return false; });
    reg({"_ZNSt15__exception_ptr13exception_ptr9_M_addrefEv", "_ZNSt15__exception_ptr13exception_ptr10_M_releaseEv"}, H { return true; });
    reg({"_ZSt9terminatev", "abort", "__clang_call_terminate"}, H { terminateViol(s, "std::terminate is called"); return false; });
    reg({"__cxa_pure_virtual"}, H { terminateViol(s, "pure virtual call"); return false; });
    struct TN { const char *fn, *ti; };
    static const TN tn[] = {{"_ZSt17__throw_bad_allocv", "_ZTISt9bad_alloc"}, {"_ZSt28__throw_bad_array_new_lengthv", "_ZTISt20bad_array_new_length"},
        {"_ZSt20__throw_length_errorPKc", "_ZTISt12length_error"}, {"_ZSt19__throw_logic_errorPKc", "_ZTISt11logic_error"}, {"_ZSt20__throw_out_of_rangePKc", "_ZTISt12out_of_range"},
        {"_ZSt24__throw_out_of_range_fmtPKcz", "_ZTISt12out_of_range"}, {"_ZSt25__throw_bad_function_callv", "_ZTISt17bad_function_call"}, {"_ZSt20__throw_system_errori", "_ZTISt12system_error"},
        {"_ZSt20__throw_future_errori", "_ZTISt12future_error"}, {"_ZSt24__throw_invalid_argumentPKc", "_ZTISt16invalid_argument"}};
    for (auto& t : tn) { string ti = t.ti; reg({t.fn}, [ti](State& s, IInfo&, vector<Val>&, Val&) -> bool { throwNew(s, ti); return false; }); }
    static const char* noop[] = {"_ZNSt13runtime_errorC1ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE", "_ZNSt13runtime_errorC1EPKc", "_ZNSt13runtime_errorC2EPKc", "_ZNSt13runtime_errorC2ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE",
        "_ZNSt12domain_errorC1EPKc", "_ZNSt12domain_errorC1ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE", "_ZNSt11logic_errorC1EPKc", "_ZNSt11logic_errorC2EPKc", "_ZNSt12out_of_rangeC1EPKc", "_ZNSt16invalid_argumentC1EPKc", "_ZNSt12length_errorC1EPKc",
        "_ZNSt12out_of_rangeC1ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE", "_ZNSt16invalid_argumentC1ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE", "_ZNSt11range_errorC1EPKc",
        "_ZNSt13runtime_errorD1Ev", "_ZNSt13runtime_errorD2Ev", "_ZNSt12domain_errorD1Ev", "_ZNSt11logic_errorD1Ev", "_ZNSt11logic_errorD2Ev", "_ZNSt9bad_allocD1Ev", "_ZNSt9bad_allocD2Ev", "_ZNSt9exceptionD1Ev", "_ZNSt9exceptionD2Ev", "_ZNSt12out_of_rangeD1Ev",
        "_ZNSt8ios_base4InitC1Ev", "_ZNSt8ios_base4InitD1Ev", "__cxa_thread_atexit", "pthread_cond_destroy", "pthread_mutex_destroy", "_ZNSt11logic_errorC1ERKS_", "_ZNSt11logic_errorC2ERKS_", "_ZNSt11logic_errorC1ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE", "_ZNSt11logic_errorC2ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE", "_ZNSt3_V214error_categoryD2Ev", "_ZNSt3_V214error_categoryD1Ev"};
    for (auto n : noop) reg({n}, H { return true; });
    // --- static initialisation
    reg({"__cxa_guard_acquire"}, H {
        Obj& o = resolve(s, a[0].u, 1, false);
        r = vInt(o.m.d[a[0].u - o.base] ? 0 : 1, 32);
        if (!r.u) acquire(s, a[0].u);
        return true; });
    reg({"__cxa_guard_release"}, H { inAtomicModel = true; Obj& o = resolve(s, a[0].u, 1, true); inAtomicModel = false; sliceStore(o.m, a[0].u - o.base, 1, vInt(1, 8)); release(s, a[0].u); return true; });
    reg({"__cxa_guard_abort"}, H { return true; });
    reg({"__cxa_init_primary_exception"}, H { s.exc[a[0].u] = ExcInfo{a[1].u, a[2].u, 0}; r = a[0]; return true; });
    reg({"_ZNSt15__exception_ptr13exception_ptrC1EPv", "_ZNSt15__exception_ptr13exception_ptrC2EPv"}, H { Obj& o = resolve(s, a[0].u, 8, true); sliceStore(o.m, a[0].u - o.base, 8, a[1]); return true; });
    reg({"strcmp"}, H { r = vInt((uint64_t)(int64_t)cstr(s, a[0].u).compare(cstr(s, a[1].u)), 32); return true; });
    reg({"__cxa_atexit", "symrt_cxa_atexit"}, H { s.atexit.push_back({a[0].u, a[1].u}); r = vInt(0, 32); return true; });
    // --- threads (primitives used by the runtime model rt_threads.cpp)
    reg({"sym_spawn"}, H {
        Thread t;
        int id = s.th.size();
        t.hnext = 0x100000000000ull * (id + 1);
        t.snext = 0x100000000000ull * (id + 1) + 0x80000000000ull;
        if (!FA.count(a[0].u)) unsup("spawn target");
        FInfo* fi = finfo(FA[a[0].u]);
        Frame fr;
        fr.f = fi;
        fi->calls++;
        fr.regs.resize(fi->nregs);
        fr.regs[0] = a[1];
        t.fr.push_back(fr);
        for (auto& x : s.th) x.vc.resize(id + 1);
        t.vc = s.th[s.cur].vc;
        t.vc[id] = 1;
        s.th[s.cur].vc[s.cur]++;
        s.th.push_back(t);
        r = vInt(id, 64); return true; });
    reg({"sym_tid"}, H { r = vInt(s.cur, 64); return true; });
    reg({"sym_acquire"}, H { acquire(s, a[0].u); return true; });
    reg({"sym_release"}, H { release(s, a[0].u); return true; });
    reg({"sym_thread_done"}, H { r = vInt(a[0].u < s.th.size() && s.th[a[0].u].st == Thread::Done, 32); return true; });
    reg({"sym_wait_done"}, H {
        if (s.th[a[0].u].st != Thread::Done) { auto& t = s.th[s.cur]; t.st = Thread::Wait; t.waddr = 1; t.wval = a[0].u; throw 1; }
        vcJoin(s.th[s.cur].vc, s.th[a[0].u].vc);
        return true; });
    reg({"sym_wait_eq", "sym_wait_ne"}, H {  // block until *(u32*)p ==/!= v; re-executed when woken
        bool ne = in.callee->getName() == "sym_wait_ne";
        inAtomicModel = true;
        Obj& o = resolve(s, a[0].u, 4, false);
        inAtomicModel = false;
        Val v = sliceLoad(o.m, a[0].u - o.base, 4, false);
        uint64_t cur = concretize(s, v, "lock word");
        if ((cur == a[1].u) == ne) { auto& t = s.th[s.cur]; t.st = Thread::Wait; t.waddr = a[0].u; t.wval = a[1].u; t.wneg = ne; throw 1; }
        return true; });
    reg({"sym_choice"}, H {
        uint64_t n = a[0].u;
        if (n <= 1) { r = vInt(0, 32); return true; }
        // every value is a path
        uint64_t v = 0;
        if (s.forced >= 0) { v = s.forced; s.forced = -1; }
        else if (optSched == "all") for (uint64_t c = 1; c < n; ++c) forkState(s)->forced = (int)c;
        s.choices.push_back((int)v);
        r = vInt(v, 32); return true; });
    reg({"sym_preempt"}, H { r = Val{}; auto& t = s.th[s.cur]; if (!t.pass && optSched != "det" && s.th.size() > 1) { t.pass = true; throw 2; } t.pass = false; return true; });
    reg({"sym_log"}, H { s.sched.push_back("T" + std::to_string(s.cur) + ": " + cstr(s, a[0].u)); return true; });
    reg({"sym_phase"}, H { s.phase = (int)a[0].u; return true; });
    reg({"sym_run_atexit"}, H {
        for (;;) {
            if (s.atexit.empty()) return true;
            auto p = s.atexit.back();
            s.atexit.pop_back();
            if (!FA.count(p.first)) unsup("atexit target");
            // run the handler, then come back to this instruction
            Function* F = FA[p.first];
            if (F->isDeclaration()) continue;
            pushFrame(s, F, {vInt(p.second, 64)}, nullptr);
            s.top().again = true;
            return false;
        } });
#undef H
}
static int handlerId(const string& n) {
    auto it = handlerIdx.find(n);
    return it == handlerIdx.end() ? -1 : it->second;
}
static bool intrinsic(State& s, IInfo& in, vector<Val>& a, Val& r) {
    auto* II = dyn_cast<IntrinsicInst>(in.I);
    if (!II) return false;
    auto elementwise = [&](std::function<Val(const vector<Val>&)> f) {
        if (a[0].k == Val::Agg) {
            vector<Val> out;
            for (size_t i = 0; i < a[0].agg().size(); ++i) { vector<Val> b; for (auto& x : a) b.push_back(x.k == Val::Agg ? x.agg()[i] : x); out.push_back(f(b)); }
            r = vAgg(out);
        } else r = f(a);
    };
    switch (II->getIntrinsicID()) {
        case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: {
            if (a.size() > 1 && a[1].k == Val::Int) {
                auto it = s.mem.find(a[1].u);
                if (it != s.mem.end() && it->second->kind == OStack) {
                    if (it->second.use_count() > 1) it->second = std::make_shared<Obj>(*it->second);
                    auto& m = it->second->m;
                    std::fill(m.fl.begin(), m.fl.end(), 0);
                    m.cells.clear();
                    shadowClear(s, a[1].u, it->second->size);
                }
            }
            return true;
        }
        case Intrinsic::assume: case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::donothing: case Intrinsic::experimental_noalias_scope_decl:
        case Intrinsic::invariant_start: case Intrinsic::invariant_end: case Intrinsic::stackrestore: case Intrinsic::prefetch: case Intrinsic::var_annotation: return true;
        case Intrinsic::stacksave: r = vInt(0, 64); return true;
        case Intrinsic::memcpy: case Intrinsic::memcpy_inline: memCopy(s, addrOf(s, a[0], 0, "memcpy", true), addrOf(s, a[1], 0, "memcpy", false), concretize(s, a[2], "size"), false); return true;
        case Intrinsic::memmove: memCopy(s, addrOf(s, a[0], 0, "memmove", true), addrOf(s, a[1], 0, "memmove", false), concretize(s, a[2], "size"), true); return true;
        case Intrinsic::memset: return handlers[handlerId("memset")](s, in, a, r);
        case Intrinsic::expect: case Intrinsic::expect_with_probability: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::ssa_copy: r = a[0]; return true;
        case Intrinsic::umin: case Intrinsic::umax: case Intrinsic::smin: case Intrinsic::smax: {
            auto id = II->getIntrinsicID();
            elementwise([&](const vector<Val>& b) {
                auto P = id == Intrinsic::umin ? CmpInst::ICMP_ULT : id == Intrinsic::umax ? CmpInst::ICMP_UGT : id == Intrinsic::smin ? CmpInst::ICMP_SLT : CmpInst::ICMP_SGT;
                Val c = icmp(s, P, b[0], b[1]);
                if (c.k == Val::Undef) return vUndef(b[0].bits);
                if (c.k == Val::SInt) return vBV(z3::ite(c.ex(), toBV(b[0]), toBV(b[1])), b[0].bits);
                return c.u ? b[0] : b[1];
            });
            return true;
        }
        case Intrinsic::usub_sat: { Val c = icmp(s, CmpInst::ICMP_UGT, a[0], a[1]); if (c.k == Val::Undef) { r = vUndef(a[0].bits); return true; } r = truth(s, c, "select") ? ibin(s, Instruction::Sub, a[0], a[1], a[0].bits) : vInt(0, a[0].bits); return true; }
        case Intrinsic::uadd_sat: { Val t = ibin(s, Instruction::Add, a[0], a[1], a[0].bits); Val c = icmp(s, CmpInst::ICMP_ULT, t, a[0]); r = truth(s, c, "select") ? vInt(~0ull, a[0].bits) : t; return true; }
        case Intrinsic::abs: { Val c = icmp(s, CmpInst::ICMP_SLT, a[0], vInt(0, a[0].bits)); if (c.k == Val::Undef) { r = vUndef(a[0].bits); return true; } r = truth(s, c, "select") ? ibin(s, Instruction::Sub, vInt(0, a[0].bits), a[0], a[0].bits) : a[0]; return true; }
        case Intrinsic::fabs: elementwise([&](const vector<Val>& b) { return fabsV(s, b[0]); }); return true;
        case Intrinsic::ceil: r = froundV(s, a[0], 'c'); return true;
        case Intrinsic::floor: r = froundV(s, a[0], 'f'); return true;
        case Intrinsic::trunc: r = froundV(s, a[0], 't'); return true;
        case Intrinsic::round: r = froundV(s, a[0], 'r'); return true;
        case Intrinsic::rint: case Intrinsic::nearbyint: case Intrinsic::roundeven: {
            if (optFpMode) { if (a[0].k == Val::Fp) { r = vFp(nearbyint(a[0].fp()), a[0].bits); return true; } r = freshFp(a[0].bits); return true; }
            RFp h = rf::mkc(mpq_class(1, 2));
            r = vReal(roundReal(s, rf::addsub(a[0].real(), h, 1), 'f'), a[0].bits); return true;
        }
        case Intrinsic::sqrt: return handlers[handlerId("sqrt")](s, in, a, r);
        case Intrinsic::pow: return handlers[handlerId("pow")](s, in, a, r);
        case Intrinsic::powi: { RFp x = rf::mkc(1); int n = (int)sext(a[1].u, 32); if (a[0].k != Val::Real) unsup("powi"); for (int i = 0; i < abs(n); ++i) x = rf::mul(x, a[0].real()); r = n >= 0 ? vReal(x) : fbin(s, Instruction::FDiv, vReal(rf::mkc(1)), vReal(x)); return true; }
        case Intrinsic::fma: case Intrinsic::fmuladd: elementwise([&](const vector<Val>& b) { return fbin(s, Instruction::FAdd, fbin(s, Instruction::FMul, b[0], b[1]), b[2]); }); return true;
        case Intrinsic::copysign: {
            Val m = fabsV(s, a[0]);
            Val c = fcmp(s, CmpInst::FCMP_OLT, a[1], bitsToFp(0, a[1].bits));
            r = truth(s, c, "select") ? fneg(m) : m; return true;
        }
        case Intrinsic::maxnum: r = selectVal(s, fcmp(s, CmpInst::FCMP_OLT, a[0], a[1]), a[1], a[0]); return true;
        case Intrinsic::minnum: r = selectVal(s, fcmp(s, CmpInst::FCMP_OLT, a[1], a[0]), a[1], a[0]); return true;
        case Intrinsic::umul_with_overflow: case Intrinsic::uadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::smul_with_overflow: case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: {
            unsigned b = a[0].bits;
            auto id = II->getIntrinsicID();
            if (a[0].k == Val::Undef || a[1].k == Val::Undef) { r = vAgg({vUndef(b), vUndef(1)}); return true; }
            bool sg = id == Intrinsic::smul_with_overflow || id == Intrinsic::sadd_with_overflow || id == Intrinsic::ssub_with_overflow;
            if (a[0].k == Val::Int && a[1].k == Val::Int) {
                __int128 x = sg ? (__int128)sext(a[0].u, b) : (__int128)a[0].u, y = sg ? (__int128)sext(a[1].u, b) : (__int128)a[1].u, z;
                z = (id == Intrinsic::umul_with_overflow || id == Intrinsic::smul_with_overflow) ? x * y : (id == Intrinsic::uadd_with_overflow || id == Intrinsic::sadd_with_overflow) ? x + y : x - y;
                uint64_t t = (uint64_t)z & maskb(b);
                bool of = sg ? (__int128)sext(t, b) != z : (__int128)t != z;
                r = vAgg({vInt(t, b), vInt(of, 1)}); return true;
            }
            z3::expr x = toBV(a[0]), y = toBV(a[1]);
            if (id == Intrinsic::umul_with_overflow) r = vAgg({vBV(x * y, b), vBool(!z3::bvmul_no_overflow(x, y, false))});
            else if (id == Intrinsic::uadd_with_overflow) r = vAgg({vBV(x + y, b), vBool(z3::ult(x + y, x))});
            else if (id == Intrinsic::usub_with_overflow) r = vAgg({vBV(x - y, b), vBool(z3::ult(x, y))});
            else if (id == Intrinsic::smul_with_overflow) r = vAgg({vBV(x * y, b), vBool(!(z3::bvmul_no_overflow(x, y, true) && z3::bvmul_no_underflow(x, y)))});
            else if (id == Intrinsic::sadd_with_overflow) r = vAgg({vBV(x + y, b), vBool(!(z3::bvadd_no_overflow(x, y, true) && z3::bvadd_no_underflow(x, y)))});
            else r = vAgg({vBV(x - y, b), vBool(!(z3::bvsub_no_overflow(x, y) && z3::bvsub_no_underflow(x, y, true)))});
            return true;
        }
        case Intrinsic::ctlz: r = vInt(clz(concretize(s, a[0], "ctlz"), a[0].bits), a[0].bits); return true;
        case Intrinsic::cttz: r = vInt(ctz(concretize(s, a[0], "cttz"), a[0].bits), a[0].bits); return true;
        case Intrinsic::ctpop: r = vInt(__builtin_popcountll(concretize(s, a[0], "ctpop")), a[0].bits); return true;
        case Intrinsic::bswap: { uint64_t v = concretize(s, a[0], "bswap"), o = 0; for (unsigned i = 0; i < a[0].bits / 8; ++i) o |= (v >> (8 * i) & 255) << (a[0].bits - 8 - 8 * i); r = vInt(o, a[0].bits); return true; }
        case Intrinsic::fshl: case Intrinsic::fshr: {
            unsigned b = a[0].bits;
            uint64_t x = concretize(s, a[0], "fsh"), y = concretize(s, a[1], "fsh"), k = concretize(s, a[2], "fsh") % b;
            if (II->getIntrinsicID() == Intrinsic::fshl) r = vInt(k ? (x << k) | (y >> (b - k)) : x, b);
            else r = vInt(k ? (x << (b - k)) | (y >> k) : y, b);
            return true;
        }
        case Intrinsic::eh_typeid_for: r = vInt(a[0].u == 0 ? 1 : tiAddr(cast<GlobalValue>(II->getArgOperand(0)->stripPointerCasts())->getName().str()), 32); return true;
        case Intrinsic::objectsize: r = vInt(~0ull, in.ty.bits); return true;
        case Intrinsic::is_constant: r = vInt(0, 1); return true;
        case Intrinsic::trap: memFault(s, "trap", "a trap instruction is reached"); return true;
        case Intrinsic::threadlocal_address: {
            auto* g = cast<GlobalVariable>(II->getArgOperand(0)->stripPointerCasts());
            auto& t = s.th[s.cur];
            auto it = t.tls.find(g);
            if (it == t.tls.end()) {
                uint64_t sz = DL->getTypeAllocSize(g->getValueType());
                uint64_t ad = allocObj(s, sz, OTls, 16);
                if (g->hasInitializer()) storeTyped(s.mem[ad]->m, 0, g->getValueType(), constVal(g->getInitializer()));
                else for (auto& f : s.mem[ad]->m.fl) f = 1;
                it = t.tls.emplace(g, ad).first;
            }
            r = vInt(it->second, 64); return true;
        }
        case Intrinsic::vector_reduce_fadd: case Intrinsic::vector_reduce_fmul: {
            Val acc = a[0];
            for (auto& e : a[1].agg()) acc = fbin(s, II->getIntrinsicID() == Intrinsic::vector_reduce_fadd ? Instruction::FAdd : Instruction::FMul, acc, e);
            r = acc; return true;
        }
        case Intrinsic::vector_reduce_add: case Intrinsic::vector_reduce_mul: case Intrinsic::vector_reduce_and: case Intrinsic::vector_reduce_or: case Intrinsic::vector_reduce_xor: {
            auto id = II->getIntrinsicID();
            unsigned o = id == Intrinsic::vector_reduce_add ? Instruction::Add : id == Intrinsic::vector_reduce_mul ? Instruction::Mul : id == Intrinsic::vector_reduce_and ? Instruction::And : id == Intrinsic::vector_reduce_or ? Instruction::Or : Instruction::Xor;
            Val acc = a[0].agg()[0];
            for (size_t i = 1; i < a[0].agg().size(); ++i) acc = ibin(s, o, acc, a[0].agg()[i], acc.bits);
            r = acc; return true;
        }
        case Intrinsic::is_fpclass: {
            uint64_t m = a[1].u;
            if (optFpMode && a[0].k == Val::SFp) {
                z3::expr e = a[0].ex(), c = Z->bool_val(false);
                auto P = [&](Z3_ast x) { return z3::expr(*Z, x); };
                z3::expr ng = P(Z3_mk_fpa_is_negative(*Z, e));
                if (m & 3) c = c || P(Z3_mk_fpa_is_nan(*Z, e));
                z3::expr cls[4] = {P(Z3_mk_fpa_is_infinite(*Z, e)), P(Z3_mk_fpa_is_normal(*Z, e)), P(Z3_mk_fpa_is_subnormal(*Z, e)), P(Z3_mk_fpa_is_zero(*Z, e))};
                for (int i = 0; i < 4; ++i) { if (m & (4 << i)) c = c || (cls[i] && ng); if (m & (512 >> i)) c = c || (cls[i] && !ng); }
                r = vBool(c); return true;
            }
            if (a[0].k == Val::Real) {
                auto x = a[0].real();
                if (x->sp == rf::RF::NANV) { r = vInt((m & 3) != 0, 1); return true; }
                if (x->sp == rf::RF::PINF) { r = vInt((m & 512) != 0, 1); return true; }
                if (x->sp == rf::RF::NINF) { r = vInt((m & 4) != 0, 1); return true; }
                if ((m & 0x1f8) == 0) { r = vInt(0, 1); return true; }
                if ((m & 0x1f8) == 0x1f8) { r = vInt(1, 1); return true; }
                // finite values by sign (every nonzero one counts as normal, every zero as positive)
                bool ng = m & 8, ze = m & 64, po = m & 256;
                Val z0 = bitsToFp(0, a[0].bits);
                r = ng && ze && po ? vInt(1, 1) : ng && ze ? fcmp(s, CmpInst::FCMP_OLE, a[0], z0) : ze && po ? fcmp(s, CmpInst::FCMP_OGE, a[0], z0) : ng && po ? fcmp(s, CmpInst::FCMP_ONE, a[0], z0)
                  : ng ? fcmp(s, CmpInst::FCMP_OLT, a[0], z0) : ze ? fcmp(s, CmpInst::FCMP_OEQ, a[0], z0) : po ? fcmp(s, CmpInst::FCMP_OGT, a[0], z0) : vInt(0, 1);
                return true;
            }
            if (a[0].k == Val::Fp) {
                double d = a[0].fp();
                uint64_t c = std::isnan(d) ? 3 : std::isinf(d) ? (d > 0 ? 512 : 4) : d == 0 ? (std::signbit(d) ? 32 : 64) : std::isnormal(d) ? (d > 0 ? 256 : 8) : (d > 0 ? 128 : 16);
                r = vInt((m & c) != 0, 1); return true;
            }
            unsup("is.fpclass");
        }
        default: unsup("intrinsic " + II->getCalledFunction()->getName().str());
    }
}

// ------------------------------------------------------------------------------------ step
static void doCall(State& s, IInfo& in) {
    Frame& f = s.top();
    auto* cb = cast<CallBase>(in.I);
    vector<Val> args;
    unsigned n = cb->arg_size();
    args.reserve(n);
    for (unsigned i = 0; i < n; ++i) args.push_back(opv(f, in.ops[i]));
    Function* F = in.callee;
    int h = in.handler;
    if (!F) {
        if (cb->isInlineAsm()) { finishCall(s, vUndef()); return; }
        uint64_t p = concretize(s, opv(f, in.ops[n]), "call target");
        auto it = FA.find(p);
        if (it == FA.end()) memFault(s, "bad-call", "call through an invalid function pointer " + hex(p));
        F = it->second;
        h = handlerId(F->getName().str());
        if (h >= 0) { IInfo tmp = in; tmp.callee = F; Val r; size_t d = s.th[s.cur].fr.size(); (void)d; if (handlers[h](s, tmp, args, r)) finishCall(s, r); return; }
    }
    if (h >= 0 && F->isDeclaration()) { Val r; if (handlers[h](s, in, args, r)) finishCall(s, r); return; }
    if (F->isIntrinsic()) { Val r; if (intrinsic(s, in, args, r)) finishCall(s, r); return; }
    if (F->isDeclaration()) unsup("external function " + demangle(F->getName().str()) + " [" + F->getName().str() + "]");
    pushFrame(s, F, args, cb);
}
static Val atomicOp(State& s, AtomicRMWInst::BinOp op, const Val& o, const Val& v) {
    switch (op) {
        case AtomicRMWInst::Xchg: return v;
        case AtomicRMWInst::Add: return ibin(s, Instruction::Add, o, v, o.bits);
        case AtomicRMWInst::Sub: return ibin(s, Instruction::Sub, o, v, o.bits);
        case AtomicRMWInst::And: return ibin(s, Instruction::And, o, v, o.bits);
        case AtomicRMWInst::Or: return ibin(s, Instruction::Or, o, v, o.bits);
        case AtomicRMWInst::Xor: return ibin(s, Instruction::Xor, o, v, o.bits);
        default: unsup("atomicrmw");
    }
}
static Val vecMap2(const Val& a, const Val& b, std::function<Val(const Val&, const Val&)> f) {
    if (a.k != Val::Agg || b.k != Val::Agg) unsup("vector operand");
    vector<Val> r;
    for (size_t i = 0; i < a.agg().size(); ++i) r.push_back(f(a.agg()[i], b.agg()[i]));
    return vAgg(r);
}
static void step(State& s) {
    Frame& f = s.top();
    IInfo& in = f.f->bb[f.bb].in[f.ip];
    ++nSteps;
    switch (in.opc) {
        case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem:
        case Instruction::And: case Instruction::Or: case Instruction::Xor: case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: {
            Val a = opv(f, in.ops[0]), b = opv(f, in.ops[1]);
            unsigned opc = in.opc;
            Val r = a.k == Val::Agg ? vecMap2(a, b, [&](const Val& x, const Val& y) { return ibin(s, opc, x, y, x.bits); }) : ibin(s, opc, a, b, in.ty.bits);
            s.top().regs[in.dst] = r;
            ++s.top().ip;
            return;
        }
        case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: case Instruction::FRem: {
            Val a = opv(f, in.ops[0]), b = opv(f, in.ops[1]);
            unsigned opc = in.opc;
            Val r = a.k == Val::Agg ? vecMap2(a, b, [&](const Val& x, const Val& y) { return fbin(s, opc, x, y); }) : fbin(s, opc, a, b);
            f.regs[in.dst] = r;
            ++f.ip;
            return;
        }
        case Instruction::FNeg: {
            Val a = opv(f, in.ops[0]);
            if (a.k == Val::Agg) { vector<Val> o; for (auto& x : a.agg()) o.push_back(fneg(x)); f.regs[in.dst] = vAgg(o); } else f.regs[in.dst] = fneg(a);
            ++f.ip;
            return;
        }
        case Instruction::ICmp: {
            Val a = opv(f, in.ops[0]), b = opv(f, in.ops[1]);
            auto P = cast<CmpInst>(in.I)->getPredicate();
            f.regs[in.dst] = a.k == Val::Agg ? vecMap2(a, b, [&](const Val& x, const Val& y) { return icmp(s, P, x, y); }) : icmp(s, P, a, b);
            ++f.ip;
            return;
        }
        case Instruction::FCmp: {
            Val a = opv(f, in.ops[0]), b = opv(f, in.ops[1]);
            auto P = cast<CmpInst>(in.I)->getPredicate();
            f.regs[in.dst] = a.k == Val::Agg ? vecMap2(a, b, [&](const Val& x, const Val& y) { return fcmp(s, P, x, y); }) : fcmp(s, P, a, b);
            ++f.ip;
            return;
        }
        case Instruction::Trunc: case Instruction::ZExt: case Instruction::SExt: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: case Instruction::AddrSpaceCast:
        case Instruction::SIToFP: case Instruction::UIToFP: case Instruction::FPToSI: case Instruction::FPToUI: case Instruction::FPExt: case Instruction::FPTrunc: {
            Val a = opv(f, in.ops[0]);
            Type* FT_ = in.I->getOperand(0)->getType();
            Val r;
            if (a.k == Val::Agg && in.opc != Instruction::BitCast) {
                vector<Val> o;
                TyInfo te = tyInfo(cast<FixedVectorType>(in.I->getType())->getElementType());
                for (auto& x : a.agg()) o.push_back(castOp(s, in.opc, x, te, cast<FixedVectorType>(FT_)->getElementType()));
                r = vAgg(o);
            } else if (in.opc == Instruction::BitCast && in.ty.k == TAgg) {
                Slice m(in.ty.bytes);
                storeTyped(m, 0, FT_, a);
                r = loadTyped(m, 0, in.I->getType());
            } else r = castOp(s, in.opc, a, in.ty, FT_);
            f.regs[in.dst] = r;
            ++f.ip;
            return;
        }
        case Instruction::Select: {
            Val c = opv(f, in.ops[0]);
            if (c.k == Val::Agg) {
                Val a = opv(f, in.ops[1]), b = opv(f, in.ops[2]);
                vector<Val> o;
                for (size_t i = 0; i < c.agg().size(); ++i) o.push_back(truth(s, c.agg()[i], "select") ? a.agg()[i] : b.agg()[i]);
                f.regs[in.dst] = vAgg(o);
            } else if (c.k == Val::Int) f.regs[in.dst] = opv(f, in.ops[(c.u & 1) ? 1 : 2]);
            else if (c.k == Val::Undef) f.regs[in.dst] = vUndef(in.ty.bits);
            else {
                Val a = opv(f, in.ops[1]), b = opv(f, in.ops[2]);
                bool iv = (a.k == Val::Int || a.k == Val::SInt) && (b.k == Val::Int || b.k == Val::SInt);
                if (iv && in.ty.bits == 1) f.regs[in.dst] = vBool(z3::ite(c.ex(), toBV(a), toBV(b)));
                else { bool t = truth(s, c, "select"); f.regs[in.dst] = t ? a : b; }
            }
            ++f.ip;
            return;
        }
        case Instruction::Freeze: f.regs[in.dst] = opv(f, in.ops[0]); ++f.ip; return;
        case Instruction::GetElementPtr: {
            Val p = opv(f, in.ops[0]);
            if (p.k == Val::Undef) { f.regs[in.dst] = vUndef(64); ++f.ip; return; }
            Val r = p;
            if (p.k == Val::Int) {
                uint64_t a = p.u + in.goff;
                bool sym = false;
                for (auto& g : in.gidx) {
                    Val i = opv(f, in.ops[g.first]);
                    if (i.k == Val::Int) a += (uint64_t)(sext(i.u, i.bits) * g.second);
                    else sym = true;
                }
                if (!sym) { f.regs[in.dst] = vInt(a, 64); ++f.ip; return; }
                uint64_t prov = 0;
                if (auto* o = findObj(s, p.u)) prov = (*o)->base;
                z3::expr e = Z->bv_val((uint64_t)a, 64);
                for (auto& g : in.gidx) {
                    Val i = opv(f, in.ops[g.first]);
                    if (i.k == Val::Int) continue;
                    if (i.k != Val::SInt) { f.regs[in.dst] = vUndef(64); ++f.ip; return; }
                    z3::expr x = i.bits < 64 ? z3::sext(i.ex(), 64 - i.bits) : i.ex();
                    e = e + x * Z->bv_val((uint64_t)g.second, 64);
                }
                r = vBV(e, 64, prov);
            } else if (p.k == Val::SInt) {
                z3::expr e = p.ex() + Z->bv_val((uint64_t)in.goff, 64);
                for (auto& g : in.gidx) {
                    Val i = opv(f, in.ops[g.first]);
                    if (i.k != Val::Int && i.k != Val::SInt) { f.regs[in.dst] = vUndef(64); ++f.ip; return; }
                    z3::expr x = i.k == Val::Int ? Z->bv_val((uint64_t)sext(i.u, i.bits), 64) : i.bits < 64 ? z3::sext(i.ex(), 64 - i.bits) : i.ex();
                    e = e + x * Z->bv_val((uint64_t)g.second, 64);
                }
                r = vBV(e, 64, p.u);
            } else { r = vUndef(64); }
            f.regs[in.dst] = r;
            ++f.ip;
            return;
        }
        case Instruction::Load: {
            auto* L = cast<LoadInst>(in.I);
            Val p = opv(f, in.ops[0]);
            unsigned n = DL->getTypeStoreSize(in.T);
            uint64_t a = addrOf(s, p, n, "load", false);
            if (L->isAtomic()) { if (isAcquireOrStronger(L->getOrdering())) acquire(s, a); inAtomicModel = true; }
            Obj& o = resolve(s, a, n, false);
            inAtomicModel = false;
            if (a % L->getAlign().value()) memFault(s, "misaligned", "misaligned load");
            f.regs[in.dst] = loadTyped(o.m, a - o.base, in.T);
            ++f.ip;
            return;
        }
        case Instruction::Store: {
            auto* St = cast<StoreInst>(in.I);
            Val v = opv(f, in.ops[0]), p = opv(f, in.ops[1]);
            unsigned n = DL->getTypeStoreSize(in.T);
            if (v.k == Val::SInt && v.bits == 1) v = vInt(truth(s, v, "branch"), 1);
            uint64_t a = addrOf(s, p, n, "store", true);
            if (St->isAtomic()) { s.syncvc.erase(a); if (isReleaseOrStronger(St->getOrdering())) release(s, a); inAtomicModel = true; }
            Obj& o = resolve(s, a, n, true);
            inAtomicModel = false;
            if (a % St->getAlign().value()) memFault(s, "misaligned", "misaligned store");
            storeTyped(o.m, a - o.base, in.T, v);
            ++f.ip;
            return;
        }
        case Instruction::AtomicRMW: {
            auto* R = cast<AtomicRMWInst>(in.I);
            Val p = opv(f, in.ops[0]), v = opv(f, in.ops[1]);
            unsigned n = in.ty.bytes;
            uint64_t a = addrOf(s, p, n, "atomicrmw", true);
            if (isAcquireOrStronger(R->getOrdering())) acquire(s, a);
            if (isReleaseOrStronger(R->getOrdering())) release(s, a);
            inAtomicModel = true;
            Obj& o = resolve(s, a, n, true);
            inAtomicModel = false;
            Val old = loadTyped(o.m, a - o.base, R->getType());
            Val nv = atomicOp(s, R->getOperation(), old, v);
            sliceStore(o.m, a - o.base, n, nv);
            f.regs[in.dst] = old;
            ++f.ip;
            return;
        }
        case Instruction::AtomicCmpXchg: {
            auto* R = cast<AtomicCmpXchgInst>(in.I);
            Val p = opv(f, in.ops[0]), c = opv(f, in.ops[1]), v = opv(f, in.ops[2]);
            unsigned n = DL->getTypeStoreSize(R->getCompareOperand()->getType());
            uint64_t a = addrOf(s, p, n, "cmpxchg", true);
            if (isAcquireOrStronger(R->getSuccessOrdering())) acquire(s, a);
            if (isReleaseOrStronger(R->getSuccessOrdering())) release(s, a);
            inAtomicModel = true;
            Obj& o = resolve(s, a, n, true);
            inAtomicModel = false;
            Val old = loadTyped(o.m, a - o.base, R->getCompareOperand()->getType());
            bool eq = truth(s, icmp(s, CmpInst::ICMP_EQ, old, c), "branch");
            if (eq) sliceStore(o.m, a - o.base, n, v);
            f.regs[in.dst] = vAgg({old, vInt(eq, 1)});
            ++f.ip;
            return;
        }
        case Instruction::Fence: ++f.ip; return;
        case Instruction::Alloca: {
            auto* A = cast<AllocaInst>(in.I);
            uint64_t n = DL->getTypeAllocSize(in.T) * concretize(s, opv(f, in.ops[0]), "alloca size");
            uint64_t a = allocObj(s, n, OStack, std::max<uint64_t>(A->getAlign().value(), 16));
            s.top().allocas.push_back(a);
            s.top().regs[in.dst] = vInt(a, 64);
            ++s.top().ip;
            return;
        }
        case Instruction::Br:
            if (in.b1 < 0) jump(s, in.b0);
            else jump(s, truth(s, opv(f, in.ops[0]), "branch") ? in.b0 : in.b1);
            return;
        case Instruction::Switch: {
            Val c = opv(f, in.ops[0]);
            uint64_t v = concretize(s, c, "switch");
            for (auto& g : in.gidx) if ((uint64_t)g.second == v) { jump(s, g.first); return; }
            jump(s, in.b0);
            return;
        }
        case Instruction::Ret: {
            Val r = in.ops.empty() ? vUndef() : opv(f, in.ops[0]);
            doReturn(s, r);
            return;
        }
        case Instruction::Call: case Instruction::Invoke: doCall(s, in); return;
        case Instruction::Resume: {
            Val e = opv(f, in.ops[0]);
            // unwinding continues in the caller
            uint64_t x = e.agg()[0].u;
            popAllocas(s);
            s.th[s.cur].fr.pop_back();
            if (s.th[s.cur].fr.empty()) { terminateViol(s, "exception escapes a thread"); }
            unwind(s, x);
            return;
        }
        case Instruction::Unreachable: memFault(s, "unreachable", "control reaches code the compiler proved to have undefined behaviour");
        case Instruction::ExtractValue: {
            Val a = opv(f, in.ops[0]);
            for (unsigned i : cast<ExtractValueInst>(in.I)->getIndices()) a = a.agg()[i];
            f.regs[in.dst] = a;
            ++f.ip;
            return;
        }
        case Instruction::InsertValue: {
            Val a = opv(f, in.ops[0]), v = opv(f, in.ops[1]);
            auto idx = cast<InsertValueInst>(in.I)->getIndices();
            std::function<Val(const Val&, unsigned)> ins = [&](const Val& b, unsigned d) -> Val {
                if (d == idx.size()) return v;
                vector<Val> c = b.agg();
                c[idx[d]] = ins(c[idx[d]], d + 1);
                return vAgg(c);
            };
            if (a.k == Val::Undef) a = undefOf(in.I->getType());
            f.regs[in.dst] = ins(a, 0);
            ++f.ip;
            return;
        }
        case Instruction::ExtractElement: {
            Val a = opv(f, in.ops[0]);
            uint64_t i = concretize(s, opv(f, in.ops[1]), "vector index");
            f.regs[in.dst] = a.k == Val::Agg && i < a.agg().size() ? a.agg()[i] : vUndef(in.ty.bits);
            ++f.ip;
            return;
        }
        case Instruction::InsertElement: {
            Val a = opv(f, in.ops[0]);
            if (a.k != Val::Agg) a = undefOf(in.I->getType());
            vector<Val> c = a.agg();
            uint64_t i = concretize(s, opv(f, in.ops[2]), "vector index");
            if (i < c.size()) c[i] = opv(f, in.ops[1]);
            f.regs[in.dst] = vAgg(c);
            ++f.ip;
            return;
        }
        case Instruction::ShuffleVector: {
            auto* sv = cast<ShuffleVectorInst>(in.I);
            Val a = opv(f, in.ops[0]), b = opv(f, in.ops[1]);
            if (a.k != Val::Agg) a = undefOf(sv->getOperand(0)->getType());
            if (b.k != Val::Agg) b = undefOf(sv->getOperand(1)->getType());
            vector<Val> o;
            int n = a.agg().size();
            for (int m : sv->getShuffleMask()) o.push_back(m < 0 ? vUndef() : m < n ? a.agg()[m] : b.agg()[m - n]);
            f.regs[in.dst] = vAgg(o);
            ++f.ip;
            return;
        }
        default: unsup(string("instruction ") + in.I->getOpcodeName());
    }
}

// ------------------------------------------------------------------------------------ threads
static bool enabledThread(State& s, int i) {
    auto& t = s.th[i];
    if (t.st == Thread::Done) return false;
    if (t.st == Thread::Run) return true;
    if (t.waddr == 1) return s.th[t.wval].st == Thread::Done;
    ObjP* o = findObj(s, t.waddr);
    if (!o) return true;
    Val v = sliceLoad((*o)->m, t.waddr - (*o)->base, 4, false);
    return v.k != Val::Int || ((v.u == t.wval) != t.wneg);
}
static void finishJob(State& s) {
    if (optLeak) {
        for (auto& m : s.mem) {
            auto k = m.second->kind;
            if (k == OHeapNew || k == OHeapArr || k == OHeapMalloc) { reportPath(s, "memory", "leak", "heap object of " + std::to_string(m.second->size) + " bytes is never freed", Z->bool_val(true)); break; }
        }
    }
    throw JobDone{};
}
static void threadReturn(State& s) {
    s.th[s.cur].st = Thread::Done;
    if (s.cur == 0) finishJob(s);
    throw 3;
}
static std::unordered_map<string, uint32_t> seenStates;
struct SNode { vector<uint32_t> pred; bool ends = false; string sched; };
static vector<SNode> graph;
static void hashVal(string& h, const Val& v) {
    h.push_back((char)v.k);
    h.append((const char*)&v.u, 8);
    if (v.k == Val::SInt || v.k == Val::SFp) { unsigned id = Z3_get_ast_id(*Z, v.ex()); h.append((const char*)&id, 4); }
    else if (v.k == Val::Real) { auto r = v.real(); if (r->c && !r->sp) h += r->v.get_str(); else { const void* p = r.get(); h.append((const char*)&p, 8); } }
    else if (v.k == Val::Agg) for (auto& x : v.agg()) hashVal(h, x);
    else if (v.k == Val::Pieces) { auto& p = v.pieces(); h.append((const char*)p.d.data(), p.d.size()); }
}
static string stateKey(State& s) {
    string h;
    h.append((const char*)&s.cur, 4);
    for (auto& t : s.th) {
        h.push_back((char)t.st); h.push_back(t.pass); h.append((const char*)&t.waddr, 8); h.append((const char*)&t.wval, 4);
        for (auto& f : t.fr) { h.append((const char*)&f.f, 8); h.append((const char*)&f.bb, 4); h.append((const char*)&f.ip, 4); for (int r : liveRegs(f.f, f.bb, f.ip)) hashVal(h, f.regs[r]); }
        for (auto& c : t.caught) h.append((const char*)&c.first, 8);
    }
    for (auto& m : s.mem) {
        h.append((const char*)&m.first, 8);
        auto& o = *m.second;
        for (size_t i = 0; i < o.m.d.size(); ++i) { h.push_back((char)o.m.fl[i]); h.push_back(o.m.fl[i] == 1 ? (char)o.m.d[i] : 0); }
        for (auto& c : o.m.cells) hashVal(h, c.second);
    }
    h.append((const char*)&s.preemptions, optPreempt >= 0 ? 4 : 0);
    for (auto& p : s.pc) { unsigned id = Z3_get_ast_id(*Z, p); h.append((const char*)&id, 4); }
    if (optRace) {
        for (auto& t : s.th) for (auto c : t.vc) h.append((const char*)&c, 4);
    }
    // compress
    std::hash<string> hs;
    uint64_t a = hs(h), b = hs(h + "x");
    string r((const char*)&a, 8);
    r.append((const char*)&b, 8);
    return r;
}
// choose the next thread; forks over all enabled ones when schedules are explored
static void schedule(State& s, bool voluntary) {
    vector<int> en;
    for (int i = 0; i < (int)s.th.size(); ++i) if (enabledThread(s, i)) en.push_back(i);
    if (en.empty()) {
        string w;
        for (int i = 0; i < (int)s.th.size(); ++i) if (s.th[i].st != Thread::Done) w += " T" + std::to_string(i);
        reportPath(s, "deadlock", "deadlock", "no thread can make progress; blocked:" + w, Z->bool_val(true));
        throw PathEnd{};
    }
    if (optSched != "all") {
        int n = -1;
        for (int d = voluntary || optSched == "rr" ? 1 : 0; d <= (int)s.th.size(); ++d) { int c = (s.cur + d) % s.th.size(); if (enabledThread(s, c)) { n = c; break; } }
        s.cur = n;
        s.th[n].st = Thread::Run;
        return;
    }
    bool curEn = enabledThread(s, s.cur);
    if (optDedupe && s.th.size() > 1) {
        ++nStates;
        auto ins = seenStates.emplace(stateKey(s), (uint32_t)graph.size());
        if (ins.second) graph.emplace_back();
        if (s.node >= 0) graph[ins.first->second].pred.push_back(s.node);
        s.node = ins.first->second;
        if (!ins.second) { ++nDedup; throw PathEnd{}; }
        if (graph.size() < 2000000) { string c; for (auto& x : s.sched) if (x.compare(0, 4, "-> T") == 0) c.push_back((char)atoi(x.c_str() + 4)); graph[s.node].sched = c; }
    }
    // the scheduler's decision is a symbolic variable; every feasible value is a path
    int first = curEn ? s.cur : en[0];
    if (en.size() > 1) {
        for (int c : en) {
            if (c == first) continue;
            if (curEn && optPreempt >= 0 && s.preemptions >= optPreempt) continue;
            State* o = forkState(s);
            o->cur = c;
            o->th[c].st = Thread::Run;
            if (curEn) o->preemptions++;
            o->sched.push_back("-> T" + std::to_string(c));
        }
        s.sched.push_back("-> T" + std::to_string(first));
    }
    s.cur = first;
    s.th[first].st = Thread::Run;
}
static void runState(State& s) {
    uint64_t n0 = nSteps;
    while (true) {
        try {
            while (true) {
                step(s);
                if (((nSteps - n0) & 1023) == 0 && now() - T0 > optTime) throw Unsupported{"time limit"};
            }
        } catch (int k) {
            if (k == 2) schedule(s, false);       // preemption point, current thread stays enabled
            else schedule(s, true);               // blocked (1) or finished (3)
        }
    }
}

// Preemption points in front of atomic operations of the program (those inside the standard library's
// own reference counts and shared states are its affair), scheduler-aware static initialisation.
static void instrument() {
    auto* VT = FunctionType::get(Type::getVoidTy(LC), false);
    FunctionCallee pre = M->getOrInsertFunction("sym_preempt", VT);
    static const std::set<string> lib{"shared_ptr_base.h", "shared_ptr.h", "atomicity.h", "atomic_futex.h", "future", "mutex", "stop_token"};
    for (auto& F : *M) {
        if (F.isDeclaration() || F.getName().starts_with("symrt_")) continue;
        if (optTsan) F.addFnAttr(Attribute::SanitizeThread);
        vector<Instruction*> at;
        for (auto& B : F) for (auto& I : B) {
            if (!I.isAtomic() || isa<FenceInst>(I)) continue;
            bool skip = false;
            for (DILocation* L = I.getDebugLoc().get(); L; L = L->getInlinedAt()) {
                string fn = L->getScope()->getFilename().str();
                if (lib.count(fn.substr(fn.rfind('/') + 1)) && fn.find("c++") != string::npos) skip = true;
            }
            if (!skip) at.push_back(&I);
        }
        for (auto* I : at) { auto* C = CallInst::Create(pre, "", I); C->setDebugLoc(I->getDebugLoc()); }
    }
    static const std::pair<const char*, const char*> ren[] = {{"__cxa_guard_acquire", "symrt_guard_acquire"}, {"__cxa_guard_release", "symrt_guard_release"}, {"__cxa_guard_abort", "symrt_guard_abort"}, {"__cxa_atexit", "symrt_cxa_atexit"}};
    for (auto& r : ren)
        if (Function* F = M->getFunction(r.first)) {
            Function* G = M->getFunction(r.second);
            if (G) { F->replaceAllUsesWith(G); } else if (string(r.first) == "__cxa_atexit") F->setName(r.second);
        }
}
// ------------------------------------------------------------------------------------ main
static string jesc(const string& s) {
    string r;
    for (char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c == '\n') r += "\\n"; else if ((unsigned char)c < 32) r += ' '; else r += c; }
    return r;
}
int main(int argc, char** argv) {
    T0 = now();
    for (int i = 1; i < argc; ++i) {
        string a = argv[i];
        auto nx = [&]() { return string(argv[++i]); };
        if (a == "--bc") optBC = nx();
        else if (a == "--job") optJob = nx();
        else if (a == "--out") optOut = nx();
        else if (a == "--mode") { optMode = nx(); optFpMode = optMode == "fp"; }
        else if (a == "--sched") optSched = nx();
        else if (a == "--trunc") optTrunc = nx();
        else if (a == "--time") optTime = atof(nx().c_str());
        else if (a == "--timeout-ms") optTimeoutMs = atoi(nx().c_str());
        else if (a == "--max-paths") optMaxPaths = atoll(nx().c_str());
        else if (a == "--max-viol") optMaxViol = atoll(nx().c_str());
        else if (a == "--no-leak") optLeak = false;
        else if (a == "--race") optRace = true;
        else if (a == "--tsan") optTsan = true;
        else if (a == "--instrument") optInstr = nx();
        else if (a == "--no-dedupe") optDedupe = false;
        else if (a == "--preempt") optPreempt = atoi(nx().c_str());
        else if (a == "--seed") rng += 2654435761u * (uint64_t)atoll(nx().c_str());
        else if (a == "-v") optVerbose = true;
        else { std::cerr << "unknown option " << a << "\n"; return 3; }
    }
    SMDiagnostic Err;
    M = parseIRFile(optBC, Err, LC);
    if (!M) { Err.print("bsym", errs()); return 3; }
    DL = &M->getDataLayout();
    if (optSched != "det" || !optInstr.empty()) instrument();
    if (!optInstr.empty()) {
        std::error_code ec;
        raw_fd_ostream os(optInstr, ec);
        WriteBitcodeToFile(*M, os);
        return ec ? 3 : 0;
    }
    if (optJob == "?") {
        for (auto& F : *M) if (!F.isDeclaration() && F.getName().starts_with("job_")) std::cout << F.getName().substr(4).str() << "\n";
        return 0;
    }
    z3::context ctx;
    Z = &ctx;
    z3::params p(ctx);
    z3::solver sol(ctx);
    p.set("timeout", optTimeoutMs);
    sol.set(p);
    S = &sol;
    string status = "ok", err;
    try {
        initHandlers();
        Function* F = M->getFunction("job_" + optJob);
        if (!F) { std::cerr << "no job " << optJob << "\n"; return 3; }
        for (auto& g : M->globals()) if (!g.isDeclaration() && !g.isThreadLocal()) globalAddr(&g);
        auto st = std::make_unique<State>();
        st->th.emplace_back();
        st->th[0].hnext = 0x100000000000ull;
        st->th[0].snext = 0x180000000000ull;
        st->th[0].vc = {1};
        FInfo* fi = finfo(F);
        fi->calls++;
        Frame fr;
        fr.f = fi;
        fr.regs.resize(fi->nregs);
        st->th[0].fr.push_back(fr);
        work.push_back(std::move(st));
        while (!work.empty()) {
            std::unique_ptr<State> s = std::move(work.back());
            work.pop_back();
            if (now() - T0 > optTime) { status = "incomplete"; err = "time limit"; break; }
            if (nPaths >= optMaxPaths) { status = "incomplete"; err = "path limit"; break; }
            if (viols.size() >= optMaxViol) { err = "stopped after violations"; break; }
            try {
                if (optSched == "all" && s->th.size() > 1) { /* resumed inside schedule() */ }
                runState(*s);
            } catch (PathEnd&) { ++nPaths; }
            catch (JobDone&) {
                ++nPaths;
                if (s->node >= 0) graph[s->node].ends = true;
                uint64_t n = ++reach["<end>"];
                if (!optFpMode && (n & (n - 1)) == 0 && (query(*s, niceBounds(16), true) == z3::sat || query(*s, Z->bool_val(true), true) == z3::sat)) {
                    witness.clear();
                    for (auto& in : inputs) witness[in.name] = exStr(*lastModel, in);
                }
            }
            catch (Unsupported& u) {
                status = u.msg == "time limit" ? "incomplete" : "unsupported";
                err = u.msg;
                if (optVerbose) { std::cerr << "unsupported: " << u.msg << "\n"; for (auto& x : stackOf(*s)) std::cerr << "  " << x << "\n"; }
                err += " @ " + (stackOf(*s).empty() ? string() : stackOf(*s)[0]);
                break;
            }
        }
    } catch (Unsupported& u) { status = "unsupported"; err = u.msg; }
    catch (z3::exception& e) { status = "error"; err = string("z3: ") + e.msg(); }
    // from every reachable state the program must be able to end
    if (status == "ok" && viols.empty() && incomplete.empty() && optSched == "all" && optPreempt < 0 && !graph.empty() && work.empty()) {
        vector<uint32_t> q;
        vector<bool> ok(graph.size());
        for (size_t i = 0; i < graph.size(); ++i) if (graph[i].ends) { ok[i] = true; q.push_back(i); }
        while (!q.empty()) { auto i = q.back(); q.pop_back(); for (auto p : graph[i].pred) if (!ok[p]) { ok[p] = true; q.push_back(p); } }
        checkCount["progress"] += graph.size();
        checkSyntactic["progress"] += graph.size();
        for (size_t i = 0; i < graph.size(); ++i) if (!ok[i]) { viols.push_back(Viol{"deadlock", "livelock", "a state from which the program cannot end is reachable", {}, {}, {}}); for (char c : graph[i].sched) viols.back().sched.push_back("-> T" + std::to_string((int)c)); break; }
    }
    if (status == "ok" && !incomplete.empty()) { status = "incomplete"; err = incomplete; }
    struct rusage ru;
    getrusage(RUSAGE_SELF, &ru);
    std::ostringstream o;
    o << "{\"job\":\"" << jesc(optJob) << "\",\"status\":\"" << status << "\",\"error\":\"" << jesc(err) << "\",\"paths\":" << nPaths << ",\"steps\":" << nSteps << ",\"forks\":" << nForks
      << ",\"queries\":" << nQueries << ",\"sat\":" << nSat << ",\"unsat\":" << nUnsat << ",\"unknown\":" << nUnknown << ",\"states\":" << nStates << ",\"dedup\":" << nDedup << ",\"solver_s\":" << tSolver << ",\"wall_s\":" << now() - T0 << ",\"rss_mb\":" << ru.ru_maxrss / 1024
      << ",\"vars\":" << inputs.size() << ",\"div_assumed\":" << nDivAssumed << ",\"checks\":{";
    bool c = false;
    for (auto& x : checkCount) { o << (c ? "," : "") << "\"" << jesc(x.first) << "\":[" << x.second << "," << checkSyntactic[x.first] << "]"; c = true; }
    o << "},\"reach\":{";
    c = false;
    for (auto& x : reach) { o << (c ? "," : "") << "\"" << jesc(x.first) << "\":" << x.second; c = true; }
    o << "},\"functions\":[";
    c = false;
    for (auto& x : FI) if (x.second->calls && !x.first->isDeclaration()) {
        string d = demangle(x.first->getName().str());
        if (d.find("intp::") == string::npos) continue;
        o << (c ? "," : "") << "\"" << jesc(d.substr(0, 300)) << "\"";
        c = true;
    }
    o << "],\"witness\":{";
    c = false;
    for (auto& x : witness) { o << (c ? "," : "") << "\"" << jesc(x.first) << "\":\"" << jesc(x.second) << "\""; c = true; }
    o << "},\"violations\":[";
    c = false;
    for (auto& v : viols) {
        o << (c ? "," : "") << "{\"kind\":\"" << v.kind << "\",\"id\":\"" << jesc(v.id) << "\",\"msg\":\"" << jesc(v.msg) << "\",\"inputs\":{";
        bool d = false;
        for (auto& x : v.in) { o << (d ? "," : "") << "\"" << jesc(x.first) << "\":\"" << jesc(x.second) << "\""; d = true; }
        o << "},\"stack\":[";
        d = false;
        for (auto& x : v.stack) { o << (d ? "," : "") << "\"" << jesc(x) << "\""; d = true; }
        o << "],\"sched\":[";
        d = false;
        for (auto& x : v.sched) { o << (d ? "," : "") << "\"" << jesc(x) << "\""; d = true; }
        o << "]}";
        c = true;
    }
    o << "]}\n";
    if (optOut.empty()) std::cout << o.str();
    else { std::ofstream f(optOut); f << o.str(); }
    std::cout.flush();
    _exit(status == "ok" ? (viols.empty() ? 0 : 1) : 2);
}
