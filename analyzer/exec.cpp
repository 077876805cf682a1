// Transfer functions of the individual IR instructions.
#include "interp.h"
#include <algorithm>
#include <llvm/IR/Constants.h>
#include <llvm/IR/IntrinsicInst.h>
using namespace llvm;

static Val cmp(CmpInst::Predicate p, const Val &a, const Val &b) {
	if (a.k == 0 && b.k == 0) {
		uint64_t x = a.c, y = b.c; uint32_t sh = 64 - a.w; int64_t sx = int64_t(x << sh) >> sh, sy = int64_t(y << sh) >> sh; bool r;
		switch (p) {
		case CmpInst::ICMP_EQ: r = x == y; break; case CmpInst::ICMP_NE: r = x != y; break;
		case CmpInst::ICMP_ULT: r = x < y; break; case CmpInst::ICMP_ULE: r = x <= y; break;
		case CmpInst::ICMP_UGT: r = x > y; break; case CmpInst::ICMP_UGE: r = x >= y; break;
		case CmpInst::ICMP_SLT: r = sx < sy; break; case CmpInst::ICMP_SLE: r = sx <= sy; break;
		case CmpInst::ICMP_SGT: r = sx > sy; break; default: r = sx >= sy; break;
		}
		return mk(1, r);
	}
	Poly r;
	switch (p) {
	case CmpInst::ICMP_EQ: r = ops::eq(a, b); break; case CmpInst::ICMP_NE: r = dom::n(ops::eq(a, b)); break;
	case CmpInst::ICMP_ULT: r = ops::ult(a, b); break; case CmpInst::ICMP_ULE: r = dom::n(ops::ult(b, a)); break;
	case CmpInst::ICMP_UGT: r = ops::ult(b, a); break; case CmpInst::ICMP_UGE: r = dom::n(ops::ult(a, b)); break;
	case CmpInst::ICMP_SLT: r = ops::slt(a, b); break; case CmpInst::ICMP_SLE: r = dom::n(ops::slt(b, a)); break;
	case CmpInst::ICMP_SGT: r = ops::slt(b, a); break; default: r = dom::n(ops::slt(a, b)); break;
	}
	return mkBits({r});
}
static uint64_t fUDiv(uint64_t a, uint64_t b) { return b ? a / b : 0; }
static uint64_t fURem(uint64_t a, uint64_t b) { return b ? a % b : 0; }

// restoring division by bits, for unknown dividends
static void divmod(const Val &a, const Val &b, Val &q, Val &r) {
	uint32_t w = a.w; std::vector<Poly> qb(w, ZERO);
	Val rem = ops::zext(mk(1, 0), w + 1), bb = ops::zext(b, w + 1);
	for (uint32_t i = w; i-- > 0;) {
		rem = ops::shl(rem, mk(32, 1));
		rem = ops::bitOr(rem, ops::zext(ops::slice(a, i, 1), w + 1));
		Poly ge = dom::n(ops::ult(rem, bb));
		qb[i] = ge;
		rem = mergeVal(ge, ops::sub(rem, bb), rem);
	}
	q = mkBits(qb); r = ops::trunc(rem, w);
}

void Interp::exec(Frame &fr, State &st, const Ins &in) {
	FI *f = fr.f;
	auto O = [&](int i) -> const Val & { return op(st, f, in.ops[i]); };
	Val r;
	switch (in.op) {
	case Instruction::Alloca: {
		auto *ai = cast<AllocaInst>(in.I);
		uint64_t n = DL.getTypeAllocSize(ai->getAllocatedType());
		const Val &c = O(0);
		if (c.k) throw Undecided("variable-length array");
		uint64_t a;
		fr.allocas.push_back(alloc(st.mem, n * c.c, O_STACK, ai->getAlign().value(), ai, &a));
		r = mk(64, a);
		break;
	}
	case Instruction::Load: {
		auto *l = cast<LoadInst>(in.I);
		curOrd = l->isAtomic() ? l->getOrdering() : AtomicOrdering::NotAtomic;
		r = load(st, O(0), in.ty, in.align, &fr, l->isAtomic());
		curOrd = AtomicOrdering::NotAtomic;
		break;
	}
	case Instruction::Store: {
		auto *s = cast<StoreInst>(in.I);
		curOrd = s->isAtomic() ? s->getOrdering() : AtomicOrdering::NotAtomic;
		store(st, O(1), O(0), in.ty, in.align, &fr, s->isAtomic());
		curOrd = AtomicOrdering::NotAtomic;
		return;
	}
	case Instruction::GetElementPtr: {
		const Val &b = O(0);
		uint64_t off = in.off; bool conc = b.k == 0;
		for (auto &sc : in.sc) if (op(st, f, sc.first).k) conc = false;
		if (conc) {
			for (auto &sc : in.sc) { const Val &x = op(st, f, sc.first); uint32_t sh = 64 - x.w; off += (int64_t(x.c << sh) >> sh) * sc.second; }
			r = mk(64, b.c + off);
			break;
		}
		Val idx = mk(64, off);
		for (auto &sc : in.sc) {
			Val x = op(st, f, sc.first);
			if (x.w < 64) x = ops::sext(x, 64);
			idx = ops::add(idx, ops::mul(x, mk(64, sc.second)));
		}
		if (b.k == 0) {
			r = ops::add(b, idx);
			if (r.k == 1) { r.n->hasP = true; r.n->pbase = b.c; bitsOf(idx, r.n->pidx); }
		} else if (b.n->hasP) {
			std::vector<Poly> pb = b.n->pidx;
			Val total = ops::add(mkBits(pb), idx);
			r = ops::add(mk(64, b.n->pbase), total);
			if (r.k == 1) { r.n->hasP = true; r.n->pbase = b.n->pbase; bitsOf(total, r.n->pidx); }
		} else r = ops::add(b, idx);
		break;
	}
	case Instruction::ICmp: r = cmp(cast<ICmpInst>(in.I)->getPredicate(), O(0), O(1)); break;
	case Instruction::Add: {
		r = ops::add(O(0), O(1));
		if (cast<BinaryOperator>(in.I)->hasNoSignedWrap() && f->repo) {
			const Val &a = O(0), &b = O(1); uint32_t w = a.w;
			Poly sa = bitOf(a, w - 1), sb = bitOf(b, w - 1), sr = bitOf(r, w - 1);
			Poly ov = dom::a(dom::n(dom::x(sa, sb)), dom::x(sa, sr));
			if (ov != ZERO) event(st, &fr, "overflow", "signed addition overflows", ov, false);
		}
		break;
	}
	case Instruction::Sub: {
		r = ops::sub(O(0), O(1));
		if (cast<BinaryOperator>(in.I)->hasNoSignedWrap() && f->repo) {
			const Val &a = O(0), &b = O(1); uint32_t w = a.w;
			Poly sa = bitOf(a, w - 1), sb = bitOf(b, w - 1), sr = bitOf(r, w - 1);
			Poly ov = dom::a(dom::x(sa, sb), dom::x(sa, sr));
			if (ov != ZERO) event(st, &fr, "overflow", "signed subtraction overflows", ov, false);
		}
		break;
	}
	case Instruction::Mul: {
		r = ops::mul(O(0), O(1));
		const Val &a = O(0), &b = O(1);
		if (cast<BinaryOperator>(in.I)->hasNoSignedWrap() && f->repo && a.k == 0 && b.k == 0) {
			uint32_t sh = 64 - a.w; __int128 p = (__int128)(int64_t(a.c << sh) >> sh) * (int64_t(b.c << sh) >> sh);
			if (p != (int64_t(r.c << sh) >> sh)) event(st, &fr, "overflow", "signed multiplication overflows", ONE, false);
		}
		break;
	}
	case Instruction::And: r = ops::bitAnd(O(0), O(1)); break;
	case Instruction::Or: r = ops::bitOr(O(0), O(1)); break;
	case Instruction::Xor: r = ops::bitXor(O(0), O(1)); break;
	case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: {
		const Val &a = O(0), &n = O(1);
		if (n.k == 0) {
			if (n.c >= a.w) {
				event(st, &fr, "shift", "shift of a " + std::to_string(a.w) + "-bit value by " + std::to_string(int64_t(n.c << (64 - n.w)) >> (64 - n.w)), ONE, false);
				r = undef(a.w, "out-of-range shift"); break;
			}
		} else {
			Poly ov = dom::n(ops::ult(n, mk(n.w, a.w)));
			if (ov != ZERO) event(st, &fr, "shift", "shift amount may reach the width of the value", ov, false);
		}
		if (a.k == 0 && n.k == 0) {
			uint32_t sh = 64 - a.w;
			r = in.op == Instruction::Shl ? mk(a.w, a.c << n.c) : in.op == Instruction::LShr ? mk(a.w, a.c >> n.c) : mk(a.w, (int64_t(a.c << sh) >> sh) >> n.c);
		} else r = in.op == Instruction::Shl ? ops::shl(a, n) : in.op == Instruction::LShr ? ops::lshr(a, n) : ops::ashr(a, n);
		break;
	}
	case Instruction::UDiv: case Instruction::URem: case Instruction::SDiv: case Instruction::SRem: {
		const Val &a = O(0), &b = O(1);
		Poly z = ops::eq(b, ops::zext(mk(1, 0), b.w));
		if (z != ZERO && event(st, &fr, "div", "division by zero", z, z == ONE) && z == ONE) { r = undef(a.w, "division by zero"); break; }
		bool sg = in.op == Instruction::SDiv || in.op == Instruction::SRem, dv = in.op == Instruction::UDiv || in.op == Instruction::SDiv;
		if (a.k == 0 && b.k == 0) {
			uint32_t sh = 64 - a.w; int64_t x = int64_t(a.c << sh) >> sh, y = int64_t(b.c << sh) >> sh;
			if (sg && y == -1) { r = dv ? mk(a.w, -uint64_t(x)) : mk(a.w, 0); break; }
			r = sg ? mk(a.w, dv ? x / y : x % y) : mk(a.w, dv ? a.c / b.c : a.c % b.c);
			break;
		}
		Poly sa = ZERO, sb = ZERO; Val ua = a, ub = b;
		if (sg) {
			sa = bitOf(a, a.w - 1); sb = bitOf(b, b.w - 1);
			ua = mergeVal(sa, ops::neg(a), a); ub = mergeVal(sb, ops::neg(b), b);
		}
		Val q, m;
		// power of two
		int pw = -1;
		if (ub.k == 0 && ub.c && !(ub.c & (ub.c - 1))) pw = __builtin_ctzll(ub.c);
		if (pw >= 0) {
			q = ops::lshr(ua, mk(32, pw)); m = ops::bitAnd(ua, ops::zext(mk(64, ub.c - 1), 64).w == a.w ? mk(64, ub.c - 1) : a.w <= 64 ? mk(a.w, ub.c - 1) : ops::zext(mk(64, ub.c - 1), a.w));
		} else if (a.w <= 64 && ops::tabulate(ua, ub, a.w, fUDiv, q) && ops::tabulate(ua, ub, a.w, fURem, m)) {
		} else divmod(ua, ub, q, m);
		if (sg) {
			Poly sq = dom::x(sa, sb);
			q = mergeVal(sq, ops::neg(q), q); m = mergeVal(sa, ops::neg(m), m);
		}
		r = dv ? q : m;
		break;
	}
	case Instruction::Trunc: r = ops::trunc(O(0), in.w); break;
	case Instruction::ZExt: r = ops::zext(O(0), in.w); break;
	case Instruction::SExt: {
		const Val &a = O(0);
		if (a.k == 0 && in.w <= 64) { uint32_t sh = 64 - a.w; r = mk(in.w, int64_t(a.c << sh) >> sh); }
		else r = ops::sext(a, in.w);
		break;
	}
	case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: case Instruction::AddrSpaceCast: {
		r = O(0);
		if (r.k != 2 && in.w && in.w != r.w) r = in.w < r.w ? ops::trunc(r, in.w) : ops::zext(r, in.w);
		if (r.k == 2 || !in.w) throw Undecided("vector bitcast");
		break;
	}
	case Instruction::Freeze: r = O(0); break;
	case Instruction::Select: {
		const Val &c = O(0);
		if (c.k == 0) { r = c.c ? O(1) : O(2); break; }
		if (c.k == 2) throw Undecided("vector select");
		checkUndef(st, &fr, c, "condition");
		r = mergeVal(c.n->bits[0], O(1), O(2));
		break;
	}
	case Instruction::ExtractValue: {
		Val v = O(0);
		for (unsigned i : cast<ExtractValueInst>(in.I)->indices()) { Val t = v.n->el[i]; v = t; }
		r = v; break;
	}
	case Instruction::InsertValue: {
		auto *iv = cast<InsertValueInst>(in.I);
		std::function<Val(const Val &, ArrayRef<unsigned>)> ins = [&](const Val &a, ArrayRef<unsigned> ix) -> Val {
			if (ix.empty()) return O(1);
			std::vector<Val> el = a.n->el;
			el[ix[0]] = ins(el[ix[0]], ix.drop_front());
			return mkAgg(el);
		};
		r = ins(O(0), iv->getIndices());
		break;
	}
	case Instruction::LandingPad: {
		uint64_t sel = 0;
		landing(st, fr, cast<LandingPadInst>(in.I), st.ti, sel);
		r = mkAgg({st.exc, mk(32, sel)});
		break;
	}
	case Instruction::AtomicRMW: {
		auto *rm = cast<AtomicRMWInst>(in.I);
		curOrd = rm->getOrdering();
		const Val p = O(0), v = O(1);
		Val old = loadInt(st, p, v.w, &fr, 1, true), nw;
		switch (rm->getOperation()) {
		case AtomicRMWInst::Xchg: nw = v; break;
		case AtomicRMWInst::Add: nw = ops::add(old, v); break;
		case AtomicRMWInst::Sub: nw = ops::sub(old, v); break;
		case AtomicRMWInst::And: nw = ops::bitAnd(old, v); break;
		case AtomicRMWInst::Or: nw = ops::bitOr(old, v); break;
		case AtomicRMWInst::Xor: nw = ops::bitXor(old, v); break;
		default: throw Undecided("atomic operation");
		}
		storeInt(st, p, nw, &fr, 1, true);
		curOrd = AtomicOrdering::NotAtomic;
		r = old;
		break;
	}
	case Instruction::AtomicCmpXchg: {
		auto *cx = cast<AtomicCmpXchgInst>(in.I);
		curOrd = cx->getSuccessOrdering();
		const Val p = O(0), e = O(1), v = O(2);
		Val old = loadInt(st, p, v.w, &fr, 1, true);
		Poly q = ops::eq(old, e);
		if (q != ZERO) storeInt(st, p, mergeVal(q, v, old), &fr, 1, true);
		curOrd = AtomicOrdering::NotAtomic;
		r = mkAgg({old, mkBits({q})});
		break;
	}
	case Instruction::Fence: return;
	default:
		throw Undecided(std::string("instruction ") + in.I->getOpcodeName() + " in " + f->pretty);
	}
	st.env[in.dst] = std::move(r);
}

Val Interp::intrinsic(Frame &fr, State &st, const Ins &in, bool &ended) {
	FI *f = fr.f;
	auto O = [&](int i) -> const Val & { return op(st, f, in.ops[i]); };
	auto *cb = cast<CallBase>(in.I);
	switch (in.callee->getIntrinsicID()) {
	case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: {
		const Val &n = O(2);
		if (n.k == 0) {
			if (in.callee->getIntrinsicID() == Intrinsic::memcpy && f->repo && O(0).k == 0 && O(1).k == 0 && n.c) {
				uint64_t d = O(0).c, s = O(1).c;
				if (d != s && (d < s ? s - d : d - s) < n.c) event(st, &fr, "overlap", "memcpy between overlapping ranges", ONE, false);
			}
			// pointer arguments must be valid even for empty copies only when null checks are not elided: not flagged
			copyBytes(st, O(0), O(1), n.c, &fr);
		} else copyGuarded(st, O(0), O(1), n, &fr);
		return Val();
	}
	case Intrinsic::memset: {
		const Val &n = O(2);
		if (n.k) throw Undecided("memset of unknown length");
		Val d = O(0), v = O(1);
		moved += n.c;
		for (uint64_t i = 0; i < n.c; i++) {
			Val a = ops::add(d, mk(64, i));
			if (i && a.k == 0) { const Obj *o = st.mem.get(a.c >> 32); int64_t off = o ? int64_t(a.c & 0xffffffff) - 0x40000000 - o->start() : -1; if (!o || off < 0 || uint64_t(off) >= o->size) { event(st, &fr, "oob-write", "memset past the end of " + (o ? objName(o) : std::string("nothing")), ONE, false); break; } }
			storeInt(st, a, v, &fr);
		}
		return Val();
	}
	case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::assume: case Intrinsic::donothing:
	case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::sideeffect: case Intrinsic::prefetch:
	case Intrinsic::invariant_start: case Intrinsic::invariant_end: case Intrinsic::stackrestore: case Intrinsic::var_annotation:
		return in.dst >= 0 ? mk(64, 0) : Val();
	case Intrinsic::stacksave: return mk(64, 0);
	case Intrinsic::expect: case Intrinsic::expect_with_probability: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group:
	case Intrinsic::threadlocal_address: case Intrinsic::ptr_annotation: case Intrinsic::ssa_copy:
		return O(0);
	case Intrinsic::is_constant: return mk(1, 0);
	case Intrinsic::objectsize: return mk(in.w, O(1).c ? 0 : ~0ull);
	case Intrinsic::trap: case Intrinsic::ubsantrap: case Intrinsic::debugtrap:
		event(st, &fr, "trap", "trap instruction reached", ONE, true); ended = true; return Val();
	case Intrinsic::eh_typeid_for: {
		const Val &v = O(0);
		std::string n = v.c ? tiName[v.c] : "";
		if (v.c == 0) return mk(32, 1);
		auto it = selIds.find(n);
		if (it == selIds.end()) it = selIds.emplace(n, selIds.size() + 2).first;
		return mk(32, it->second);
	}
	case Intrinsic::umin: return mergeVal(ops::ult(O(0), O(1)), O(0), O(1));
	case Intrinsic::umax: return mergeVal(ops::ult(O(0), O(1)), O(1), O(0));
	case Intrinsic::smin: return mergeVal(ops::slt(O(0), O(1)), O(0), O(1));
	case Intrinsic::smax: return mergeVal(ops::slt(O(0), O(1)), O(1), O(0));
	case Intrinsic::abs: return mergeVal(bitOf(O(0), O(0).w - 1), ops::neg(O(0)), O(0));
	case Intrinsic::bswap: {
		const Val &a = O(0); std::vector<Val> v;
		for (uint32_t i = a.w; i > 0; i -= 8) v.push_back(ops::slice(a, i - 8, 8));
		return ops::concat(v);
	}
	case Intrinsic::bitreverse: {
		const Val &a = O(0); std::vector<Poly> v;
		for (uint32_t i = a.w; i-- > 0;) v.push_back(bitOf(a, i));
		return mkBits(v);
	}
	case Intrinsic::ctpop: {
		const Val &a = O(0); Val r = mk(a.w, 0);
		for (uint32_t i = 0; i < a.w; i++) r = ops::add(r, ops::zext(mkBits({bitOf(a, i)}), a.w));
		return r;
	}
	case Intrinsic::ctlz: case Intrinsic::cttz: {
		const Val &a = O(0); bool lz = in.callee->getIntrinsicID() == Intrinsic::ctlz;
		Val r = mk(a.w, a.w);
		for (uint32_t k = 0; k < a.w; k++) {
			uint32_t i = lz ? k : a.w - 1 - k;           // last written wins: most significant decision last
			r = mergeVal(bitOf(a, i), mk(a.w, lz ? a.w - 1 - i : i), r);
		}
		return r;
	}
	case Intrinsic::fshl: case Intrinsic::fshr: {
		const Val &a = O(0), &b = O(1), &n = O(2);
		bool l = in.callee->getIntrinsicID() == Intrinsic::fshl;
		Val m = ops::concat({b, a});
		Val k = a.w & (a.w - 1) ? n : ops::bitAnd(n, mk(n.w, a.w - 1));
		if (a.w & (a.w - 1)) throw Undecided("funnel shift of odd width");
		if (l) return ops::slice(ops::shl(m, ops::zext(k, m.w <= 64 ? m.w : 64)), a.w, a.w);
		return ops::slice(ops::lshr(m, ops::zext(k, m.w <= 64 ? m.w : 64)), 0, a.w);
	}
	case Intrinsic::uadd_sat: { Val s = ops::add(ops::zext(O(0), O(0).w + 1), ops::zext(O(1), O(0).w + 1)); return mergeVal(bitOf(s, O(0).w), mk(O(0).w, ~0ull), ops::trunc(s, O(0).w)); }
	case Intrinsic::usub_sat: return mergeVal(ops::ult(O(0), O(1)), mk(O(0).w, 0), ops::sub(O(0), O(1)));
	case Intrinsic::uadd_with_overflow: { Val s = ops::add(ops::zext(O(0), O(0).w + 1), ops::zext(O(1), O(0).w + 1)); return mkAgg({ops::trunc(s, O(0).w), mkBits({bitOf(s, O(0).w)})}); }
	case Intrinsic::usub_with_overflow: return mkAgg({ops::sub(O(0), O(1)), mkBits({ops::ult(O(0), O(1))})});
	case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: {
		uint32_t w = O(0).w; bool ad = in.callee->getIntrinsicID() == Intrinsic::sadd_with_overflow;
		Val a = ops::sext(O(0), w + 1), b = ops::sext(O(1), w + 1), s = ad ? ops::add(a, b) : ops::sub(a, b);
		return mkAgg({ops::trunc(s, w), mkBits({dom::x(bitOf(s, w), bitOf(s, w - 1))})});
	}
	case Intrinsic::umul_with_overflow: case Intrinsic::smul_with_overflow: {
		uint32_t w = O(0).w; bool u = in.callee->getIntrinsicID() == Intrinsic::umul_with_overflow;
		Val a = u ? ops::zext(O(0), 2 * w) : ops::sext(O(0), 2 * w), b = u ? ops::zext(O(1), 2 * w) : ops::sext(O(1), 2 * w), p = ops::mul(a, b);
		Val lo = ops::trunc(p, w), back = u ? ops::zext(lo, 2 * w) : ops::sext(lo, 2 * w);
		return mkAgg({lo, mkBits({dom::n(ops::eq(p, back))})});
	}
	case Intrinsic::vastart: case Intrinsic::vaend: throw Undecided("variadic function");
	default:
		(void)cb;
		throw Undecided("intrinsic " + in.callee->getName().str() + " in " + f->pretty);
	}
}
