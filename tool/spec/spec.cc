// What each LoongArch instruction does, written down from the architecture
// reference manual (volume 1, LSX and LASX), independently of the library's
// implementation.  Never executed: compiled to LLVM IR and compared with the
// instruction handlers by the "sem" analysis.
//
// The state is the library's (register file, guest memory).  By the library's
// convention a handler leaves the address of the instruction 4 bytes before
// the next one in pc; pc() is the address of the current instruction.
// Bytes of a vector register that a specification does not write are
// unspecified by the architecture (upper halves after scalar and LSX code).
#include <libloong/machine.hpp>
#include <libloong/cpu.hpp>
#include <libloong/memory.hpp>
#include <cmath>
using namespace loongarch;
typedef uint8_t u8; typedef uint16_t u16; typedef uint32_t u32; typedef uint64_t u64; typedef unsigned __int128 u128;
typedef int8_t s8; typedef int16_t s16; typedef int32_t s32; typedef int64_t s64; typedef __int128 s128;
typedef Registers::VectorReg256 V256;
extern "C" void lva_unspecified();            // the architecture does not say what happens
#define INSN(name) extern "C" void lva_spec_##name(CPU& c, u32 w)
#define RD (w & 31)
#define RJ (w >> 5 & 31)
#define RK (w >> 10 & 31)
#define RA4 (w >> 15 & 31)
#define G(n) c.reg(n)
#define V(n) c.registers().getvr(n)
static inline s64 sx(u64 v, unsigned bits) { return (s64)(v << (64 - bits)) >> (64 - bits); }
static inline u64 field(u32 w, unsigned lo, unsigned n) { return w >> lo & ((1u << n) - 1); }
static inline s64 sfield(u32 w, unsigned lo, unsigned n) { return sx(w >> lo, n); }
template <class T> static inline T rd(CPU& c, u64 a) { return c.memory().template read<T, true>(a); }
template <class T> static inline void wr(CPU& c, u64 a, T v) { c.memory().template write<T, true>(a, v); }

// ---- integer ----
INSN(ADD_W) { G(RD) = (s64)(s32)((u32)G(RJ) + (u32)G(RK)); }
INSN(ADD_D) { G(RD) = G(RJ) + G(RK); }
INSN(SUB_W) { G(RD) = (s64)(s32)((u32)G(RJ) - (u32)G(RK)); }
INSN(SUB_D) { G(RD) = G(RJ) - G(RK); }
INSN(ADDI_W) { G(RD) = (s64)(s32)((u32)G(RJ) + (u32)sfield(w, 10, 12)); }
INSN(ADDI_D) { G(RD) = G(RJ) + sfield(w, 10, 12); }
INSN(ADDU16I_D) { G(RD) = G(RJ) + ((u64)sfield(w, 10, 16) << 16); }
INSN(ALSL_W) { G(RD) = (s64)(s32)(((u32)G(RJ) << (field(w, 15, 2) + 1)) + (u32)G(RK)); }
INSN(ALSL_D) { G(RD) = (G(RJ) << (field(w, 15, 2) + 1)) + G(RK); }
INSN(LU12I_W) { G(RD) = (s64)(s32)(field(w, 5, 20) << 12); }
INSN(LU32I_D) { G(RD) = ((u64)sfield(w, 5, 20) << 32) | (u32)G(RD); }
INSN(LU52I_D) { G(RD) = (field(w, 10, 12) << 52) | (G(RJ) & 0xFFFFFFFFFFFFFull); }
INSN(SLT) { G(RD) = (s64)G(RJ) < (s64)G(RK); }
INSN(SLTU) { G(RD) = G(RJ) < G(RK); }
INSN(SLTI) { G(RD) = (s64)G(RJ) < sfield(w, 10, 12); }
INSN(SLTUI) { G(RD) = G(RJ) < (u64)sfield(w, 10, 12); }
INSN(PCADDI) { G(RD) = c.pc() + ((u64)sfield(w, 5, 20) << 2); }
INSN(PCADDU12I) { G(RD) = c.pc() + ((u64)sfield(w, 5, 20) << 12); }
INSN(PCADDU18I) { G(RD) = c.pc() + ((u64)sfield(w, 5, 20) << 18); }
INSN(PCALAU12I) { G(RD) = (c.pc() + ((u64)sfield(w, 5, 20) << 12)) & ~0xFFFull; }
INSN(AND) { G(RD) = G(RJ) & G(RK); }
INSN(OR) { G(RD) = G(RJ) | G(RK); }
INSN(XOR) { G(RD) = G(RJ) ^ G(RK); }
INSN(NOR) { G(RD) = ~(G(RJ) | G(RK)); }
INSN(ANDN) { G(RD) = G(RJ) & ~G(RK); }
INSN(ORN) { G(RD) = G(RJ) | ~G(RK); }
INSN(ANDI) { G(RD) = G(RJ) & field(w, 10, 12); }
INSN(ORI) { G(RD) = G(RJ) | field(w, 10, 12); }
INSN(XORI) { G(RD) = G(RJ) ^ field(w, 10, 12); }
INSN(NOP) { }
INSN(MASKEQZ) { G(RD) = G(RK) == 0 ? 0 : G(RJ); }
INSN(MASKNEZ) { G(RD) = G(RK) != 0 ? 0 : G(RJ); }
INSN(MUL_W) { G(RD) = (s64)(s32)((u32)G(RJ) * (u32)G(RK)); }
INSN(MULH_W) { G(RD) = (s64)(s32)(((s64)(s32)G(RJ) * (s64)(s32)G(RK)) >> 32); }
INSN(MULH_WU) { G(RD) = (s64)(s32)(((u64)(u32)G(RJ) * (u64)(u32)G(RK)) >> 32); }
INSN(MUL_D) { G(RD) = G(RJ) * G(RK); }
INSN(MULH_D) { G(RD) = (u64)(((s128)(s64)G(RJ) * (s128)(s64)G(RK)) >> 64); }
INSN(MULH_DU) { G(RD) = (u64)(((u128)G(RJ) * (u128)G(RK)) >> 64); }
#define DIVMOD(name, T, U, over, op) INSN(name) { T a = (T)G(RJ), b = (T)G(RK); if (b == 0) { lva_unspecified(); return; } if (over && b == (T)-1) G(RD) = *#op == '/' ? (s64)(T)((U)0 - (U)a) : 0; else G(RD) = (s64)(std::make_signed_t<T>)(a op b); }
DIVMOD(DIV_W, s32, u32, true, /) DIVMOD(MOD_W, s32, u32, true, %) DIVMOD(DIV_WU, u32, u32, false, /) DIVMOD(MOD_WU, u32, u32, false, %)
DIVMOD(DIV_D, s64, u64, true, /) DIVMOD(MOD_D, s64, u64, true, %) DIVMOD(DIV_DU, u64, u64, false, /) DIVMOD(MOD_DU, u64, u64, false, %)
INSN(SLL_W) { G(RD) = (s64)(s32)((u32)G(RJ) << (G(RK) & 31)); }
INSN(SRL_W) { G(RD) = (s64)(s32)((u32)G(RJ) >> (G(RK) & 31)); }
INSN(SRA_W) { G(RD) = (s64)((s32)G(RJ) >> (G(RK) & 31)); }
INSN(SLL_D) { G(RD) = G(RJ) << (G(RK) & 63); }
INSN(SRL_D) { G(RD) = G(RJ) >> (G(RK) & 63); }
INSN(SRA_D) { G(RD) = (s64)G(RJ) >> (G(RK) & 63); }
INSN(SLLI_W) { G(RD) = (s64)(s32)((u32)G(RJ) << field(w, 10, 5)); }
INSN(SRLI_W) { G(RD) = (s64)(s32)((u32)G(RJ) >> field(w, 10, 5)); }
INSN(SRAI_W) { G(RD) = (s64)((s32)G(RJ) >> field(w, 10, 5)); }
INSN(SLLI_D) { G(RD) = G(RJ) << field(w, 10, 6); }
INSN(SRLI_D) { G(RD) = G(RJ) >> field(w, 10, 6); }
INSN(SRAI_D) { G(RD) = (s64)G(RJ) >> field(w, 10, 6); }
INSN(ROTR_W) { G(RD) = (s64)(s32)__builtin_rotateright32((u32)G(RJ), G(RK) & 31); }
INSN(ROTR_D) { G(RD) = __builtin_rotateright64(G(RJ), G(RK) & 63); }
INSN(ROTRI_W) { G(RD) = (s64)(s32)__builtin_rotateright32((u32)G(RJ), field(w, 10, 5)); }
INSN(ROTRI_D) { G(RD) = __builtin_rotateright64(G(RJ), field(w, 10, 6)); }
INSN(EXT_W_B) { G(RD) = (s64)(s8)G(RJ); }
INSN(EXT_W_H) { G(RD) = (s64)(s16)G(RJ); }
INSN(CLO_W) { u32 v = ~(u32)G(RJ); G(RD) = v ? __builtin_clz(v) : 32; }
INSN(CLZ_W) { u32 v = (u32)G(RJ); G(RD) = v ? __builtin_clz(v) : 32; }
INSN(CTO_W) { u32 v = ~(u32)G(RJ); G(RD) = v ? __builtin_ctz(v) : 32; }
INSN(CTZ_W) { u32 v = (u32)G(RJ); G(RD) = v ? __builtin_ctz(v) : 32; }
INSN(CLO_D) { u64 v = ~G(RJ); G(RD) = v ? __builtin_clzll(v) : 64; }
INSN(CLZ_D) { u64 v = G(RJ); G(RD) = v ? __builtin_clzll(v) : 64; }
INSN(CTO_D) { u64 v = ~G(RJ); G(RD) = v ? __builtin_ctzll(v) : 64; }
INSN(CTZ_D) { u64 v = G(RJ); G(RD) = v ? __builtin_ctzll(v) : 64; }
static inline u64 group(u64 v, unsigned unit, unsigned grp) { // reverse the units within each group
	u64 r = 0; for (unsigned i = 0; i < 64; i += unit) { unsigned g = i / grp * grp; r |= (v >> i & ((1ull << unit) - 1)) << (g + grp - unit - (i - g)); } return r; }
static inline u64 bitrev(u64 v, unsigned n) { return __builtin_bitreverse64(v) >> (64 - n); }
static inline u64 bitrev8(u64 v) { return __builtin_bswap64(__builtin_bitreverse64(v)); }
INSN(REVB_2H) { G(RD) = (s64)(s32)group(G(RJ), 8, 16); }
INSN(REVB_4H) { G(RD) = group(G(RJ), 8, 16); }
INSN(REVB_2W) { G(RD) = group(G(RJ), 8, 32); }
INSN(REVB_D) { G(RD) = group(G(RJ), 8, 64); }
INSN(REVH_2W) { G(RD) = group(G(RJ), 16, 32); }
INSN(REVH_D) { G(RD) = group(G(RJ), 16, 64); }
INSN(BITREV_4B) { G(RD) = (s64)(s32)bitrev8(G(RJ)); }
INSN(BITREV_8B) { G(RD) = bitrev8(G(RJ)); }
INSN(BITREV_W) { G(RD) = (s64)(s32)bitrev((u32)G(RJ), 32); }
INSN(BITREV_D) { G(RD) = bitrev(G(RJ), 64); }
INSN(BYTEPICK_D) { unsigned s = field(w, 15, 3); G(RD) = s ? (G(RK) << 8 * s) | (G(RJ) >> (64 - 8 * s)) : G(RK); }
INSN(BSTRINS_W) { unsigned m = field(w, 16, 5), l = field(w, 10, 5); if (m < l) { lva_unspecified(); return; } u32 k = (~0u >> (31 - (m - l))) << l; G(RD) = (s64)(s32)(((u32)G(RD) & ~k) | (((u32)G(RJ) << l) & k)); }
INSN(BSTRPICK_W) { unsigned m = field(w, 16, 5), l = field(w, 10, 5); if (m < l) { lva_unspecified(); return; } G(RD) = (s64)(s32)(((u32)G(RJ) >> l) & (~0u >> (31 - (m - l)))); }
INSN(BSTRINS_D) { unsigned m = field(w, 16, 6), l = field(w, 10, 6); if (m < l) { lva_unspecified(); return; } u64 k = (~0ull >> (63 - (m - l))) << l; G(RD) = (G(RD) & ~k) | ((G(RJ) << l) & k); }
INSN(BSTRPICK_D) { unsigned m = field(w, 16, 6), l = field(w, 10, 6); if (m < l) { lva_unspecified(); return; } G(RD) = (G(RJ) >> l) & (~0ull >> (63 - (m - l))); }

// ---- control flow ----
static inline void go(CPU& c, u64 target) { c.registers().pc = target - 4; }
static inline s64 off16(u32 w) { return sfield(w, 10, 16) * 4; }
static inline s64 off21(u32 w) { return sx((field(w, 0, 5) << 16) | field(w, 10, 16), 21) * 4; }
static inline s64 off26(u32 w) { return sx((field(w, 0, 10) << 16) | field(w, 10, 16), 26) * 4; }
INSN(B) { go(c, c.pc() + off26(w)); }
INSN(BL) { u64 p = c.pc(); G(1) = p + 4; go(c, p + off26(w)); }
INSN(JIRL) { u64 p = c.pc(), t = G(RJ) + off16(w); if (RD) G(RD) = p + 4; go(c, t); }
INSN(BEQ) { if (G(RJ) == G(RD)) go(c, c.pc() + off16(w)); }
INSN(BNE) { if (G(RJ) != G(RD)) go(c, c.pc() + off16(w)); }
INSN(BLT) { if ((s64)G(RJ) < (s64)G(RD)) go(c, c.pc() + off16(w)); }
INSN(BGE) { if ((s64)G(RJ) >= (s64)G(RD)) go(c, c.pc() + off16(w)); }
INSN(BLTU) { if (G(RJ) < G(RD)) go(c, c.pc() + off16(w)); }
INSN(BGEU) { if (G(RJ) >= G(RD)) go(c, c.pc() + off16(w)); }
INSN(BEQZ) { if (G(RJ) == 0) go(c, c.pc() + off21(w)); }
INSN(BNEZ) { if (G(RJ) != 0) go(c, c.pc() + off21(w)); }
INSN(BCEQZ) { if (c.registers().cf(field(w, 5, 3)) == 0) go(c, c.pc() + off21(w)); }
INSN(BCNEZ) { if (c.registers().cf(field(w, 5, 3)) != 0) go(c, c.pc() + off21(w)); }

// ---- loads, stores, atomics ----
static inline u64 a12(CPU& c, u32 w) { return G(RJ) + sfield(w, 10, 12); }
static inline u64 a14(CPU& c, u32 w) { return G(RJ) + sfield(w, 10, 14) * 4; }
static inline u64 ax(CPU& c, u32 w) { return G(RJ) + G(RK); }
#define LOAD(name, T, U, addr) INSN(name) { u64 a = addr(c, w); if (RD == 0) { lva_unspecified(); return; } G(RD) = (U)rd<T>(c, a); }
LOAD(LD_B, s8, s64, a12) LOAD(LD_H, s16, s64, a12) LOAD(LD_W, s32, s64, a12) LOAD(LD_D, u64, u64, a12) LOAD(LD_BU, u8, u64, a12) LOAD(LD_HU, u16, u64, a12) LOAD(LD_WU, u32, u64, a12)
LOAD(LDX_B, s8, s64, ax) LOAD(LDX_H, s16, s64, ax) LOAD(LDX_W, s32, s64, ax) LOAD(LDX_D, u64, u64, ax) LOAD(LDX_BU, u8, u64, ax) LOAD(LDX_HU, u16, u64, ax) LOAD(LDX_WU, u32, u64, ax)
LOAD(LDPTR_W, s32, s64, a14) LOAD(LDPTR_D, u64, u64, a14)
#define STORE(name, T, addr) INSN(name) { wr<T>(c, addr(c, w), (T)G(RD)); }
STORE(ST_B, u8, a12) STORE(ST_H, u16, a12) STORE(ST_W, u32, a12) STORE(ST_D, u64, a12) STORE(STX_B, u8, ax) STORE(STX_H, u16, ax) STORE(STX_W, u32, ax) STORE(STX_D, u64, ax) STORE(STPTR_W, u32, a14) STORE(STPTR_D, u64, a14)
INSN(PRELD) { } INSN(DBAR) { } INSN(IBAR) { }
INSN(LL_W) { u64 a = a14(c, w); s64 v = rd<s32>(c, a); G(RD) = v; c.set_ll_bit(true); }
INSN(LL_D) { u64 a = a14(c, w); u64 v = rd<u64>(c, a); G(RD) = v; c.set_ll_bit(true); }
#define SC(name, T) INSN(name) { u64 a = a14(c, w); if (c.ll_bit()) { wr<T>(c, a, (T)G(RD)); G(RD) = 1; } else G(RD) = 0; c.set_ll_bit(false); }
SC(SC_W, u32) SC(SC_D, u64)
#define AM(name, T, S, expr) INSN(name) { u64 a = G(RJ); T x = rd<T>(c, a), y = (T)G(RK); (void)x; (void)y; wr<T>(c, a, expr); G(RD) = (S)x; }
#define AM2(name, expr) AM(name##_W, u32, s32, expr) AM(name##_D, u64, u64, expr)
AM2(AMSWAP, y) AM2(AMADD, x + y) AM2(AMAND, x & y) AM2(AMOR, x | y) AM2(AMXOR, x ^ y)

// ---- scalar floating point ----
#define FS(n) V(n).f[0]
#define FD(n) V(n).df[0]
INSN(FADD_S) { FS(RD) = FS(RJ) + FS(RK); } INSN(FADD_D) { FD(RD) = FD(RJ) + FD(RK); }
INSN(FSUB_S) { FS(RD) = FS(RJ) - FS(RK); } INSN(FSUB_D) { FD(RD) = FD(RJ) - FD(RK); }
INSN(FMUL_S) { FS(RD) = FS(RJ) * FS(RK); } INSN(FMUL_D) { FD(RD) = FD(RJ) * FD(RK); }
INSN(FDIV_S) { FS(RD) = FS(RJ) / FS(RK); } INSN(FDIV_D) { FD(RD) = FD(RJ) / FD(RK); }
INSN(FMADD_S) { FS(RD) = FS(RJ) * FS(RK) + FS(RA4); } INSN(FMADD_D) { FD(RD) = FD(RJ) * FD(RK) + FD(RA4); }
INSN(FMSUB_S) { FS(RD) = FS(RJ) * FS(RK) - FS(RA4); } INSN(FMSUB_D) { FD(RD) = FD(RJ) * FD(RK) - FD(RA4); }
INSN(FNMADD_S) { FS(RD) = -(FS(RJ) * FS(RK) + FS(RA4)); } INSN(FNMADD_D) { FD(RD) = -(FD(RJ) * FD(RK) + FD(RA4)); }
INSN(FNMSUB_S) { FS(RD) = -(FS(RJ) * FS(RK) - FS(RA4)); } INSN(FNMSUB_D) { FD(RD) = -(FD(RJ) * FD(RK) - FD(RA4)); }
INSN(FMAX_S) { FS(RD) = std::fmax(FS(RJ), FS(RK)); } INSN(FMAX_D) { FD(RD) = std::fmax(FD(RJ), FD(RK)); }
INSN(FMIN_S) { FS(RD) = std::fmin(FS(RJ), FS(RK)); } INSN(FMIN_D) { FD(RD) = std::fmin(FD(RJ), FD(RK)); }
INSN(FABS_S) { V(RD).wu[0] = V(RJ).wu[0] & 0x7FFFFFFFu; } INSN(FABS_D) { V(RD).du[0] = V(RJ).du[0] & 0x7FFFFFFFFFFFFFFFull; }
INSN(FNEG_D) { V(RD).du[0] = V(RJ).du[0] ^ 0x8000000000000000ull; }
INSN(FMOV_S) { V(RD).wu[0] = V(RJ).wu[0]; } INSN(FMOV_D) { V(RD).du[0] = V(RJ).du[0]; }
INSN(FSEL) { V(RD).du[0] = c.registers().cf(field(w, 15, 3)) ? V(RK).du[0] : V(RJ).du[0]; }
INSN(FCVT_S_D) { FS(RD) = (float)FD(RJ); } INSN(FCVT_D_S) { FD(RD) = (double)FS(RJ); }
INSN(FFINT_S_W) { FS(RD) = (float)V(RJ).w[0]; } INSN(FFINT_S_L) { FS(RD) = (float)V(RJ).d[0]; }
INSN(FFINT_D_W) { FD(RD) = (double)V(RJ).w[0]; } INSN(FFINT_D_L) { FD(RD) = (double)V(RJ).d[0]; }
INSN(FTINTRZ_W_S) { V(RD).w[0] = (s32)FS(RJ); } INSN(FTINTRZ_W_D) { V(RD).w[0] = (s32)FD(RJ); }
INSN(FTINTRZ_L_S) { V(RD).d[0] = (s64)FS(RJ); } INSN(FTINTRZ_L_D) { V(RD).d[0] = (s64)FD(RJ); }
// 0 signalling NaN, 1 quiet NaN, 2..5 -inf -normal -subnormal -0, 6..9 +inf +normal +subnormal +0
template <class U> static inline u32 fclass(U v, unsigned mant) {
	U e = v << 1 >> (mant + 1), m = v & (((U)1 << mant) - 1), emax = ((U)~(U)0) << 1 >> (mant + 1);
	bool neg = v >> (sizeof(U) * 8 - 1);
	unsigned kind = e == emax ? (m ? 4 : 0) : e ? 1 : m ? 2 : 3; // inf normal subnormal zero | nan
	if (kind == 4) return m >> (mant - 1) ? 2 : 1;
	return 1u << (kind + (neg ? 2 : 6));
}
INSN(FCLASS_S) { V(RD).wu[0] = fclass<u32>(V(RJ).wu[0], 23); } INSN(FCLASS_D) { V(RD).du[0] = fclass<u64>(V(RJ).du[0], 52); }
template <class T> static inline bool fcmp(unsigned cond, T a, T b) {
	bool lt = a < b, eq = a == b, un = a != a || b != b;
	unsigned q = cond >> 1; // quiet and signalling forms differ in exceptions only
	switch (q) {
	case 0: return false; case 1: return lt; case 2: return eq; case 3: return lt || eq; case 4: return un; case 5: return un || lt; case 6: return un || eq; case 7: return un || lt || eq;
	case 8: return !un && !eq; case 10: return !un; case 12: return un || !eq; default: lva_unspecified(); return false;
	}
}
INSN(FCMP_COND_S) { c.registers().set_cf(w & 7, fcmp(RA4, FS(RJ), FS(RK))); } INSN(FCMP_COND_D) { c.registers().set_cf(w & 7, fcmp(RA4, FD(RJ), FD(RK))); }
INSN(MOVGR2FR_W) { V(RD).wu[0] = (u32)G(RJ); } INSN(MOVGR2FR_D) { V(RD).du[0] = G(RJ); }
INSN(MOVFR2GR_S) { G(RD) = (s64)V(RJ).w[0]; } INSN(MOVFR2GR_D) { G(RD) = V(RJ).du[0]; }
INSN(MOVFR2CF) { c.registers().set_cf(w & 7, V(RJ).du[0] & 1); } INSN(MOVCF2FR) { V(RD).du[0] = c.registers().cf(field(w, 5, 3)); }
INSN(MOVGR2CF) { c.registers().set_cf(w & 7, G(RJ) & 1); } INSN(MOVCF2GR) { G(RD) = c.registers().cf(field(w, 5, 3)); }
INSN(MOVFCSR2GR) { if (RJ != 0) { lva_unspecified(); return; } G(RD) = c.registers().fcsr(); }
INSN(FLD_S) { V(RD).wu[0] = rd<u32>(c, a12(c, w)); } INSN(FLD_D) { V(RD).du[0] = rd<u64>(c, a12(c, w)); }
INSN(FST_S) { wr<u32>(c, a12(c, w), V(RD).wu[0]); } INSN(FST_D) { wr<u64>(c, a12(c, w), V(RD).du[0]); }
INSN(FLDX_S) { V(RD).wu[0] = rd<u32>(c, ax(c, w)); } INSN(FLDX_D) { V(RD).du[0] = rd<u64>(c, ax(c, w)); }
INSN(FSTX_S) { wr<u32>(c, ax(c, w), V(RD).wu[0]); } INSN(FSTX_D) { wr<u64>(c, ax(c, w), V(RD).du[0]); }

// ---- vectors: N lanes of one member of the register union; sources are read before anything is written ----
#define LANES(name, m, N, expr) INSN(name) { const V256 j = V(RJ), k = V(RK), a = V(RA4), d = V(RD); (void)j; (void)k; (void)a; (void)d; V256 r; for (unsigned i = 0; i < N; i++) r.m[i] = (decltype(r.m[i] + 0))(expr); for (unsigned i = 0; i < N; i++) V(RD).m[i] = r.m[i]; }
#define ALL4(name, sfx, expr8, expr16, expr32, expr64)
#define L128(name, m, expr) LANES(name, m, (16 / sizeof(V256::m[0])), expr)
INSN(VLD) { typedef std::array<u64, 2> Q; Q q = rd<Q>(c, a12(c, w)); V(RD).du[0] = q[0]; V(RD).du[1] = q[1]; }
INSN(VLDX) { typedef std::array<u64, 2> Q; Q q = rd<Q>(c, ax(c, w)); V(RD).du[0] = q[0]; V(RD).du[1] = q[1]; }
INSN(VST) { typedef std::array<u64, 2> Q; wr<Q>(c, a12(c, w), Q{V(RD).du[0], V(RD).du[1]}); }
INSN(VSTX) { typedef std::array<u64, 2> Q; wr<Q>(c, ax(c, w), Q{V(RD).du[0], V(RD).du[1]}); }
#define EL(m) (sizeof(((V256*)0)->m[0]))
#define VEC(name, m, bytes, expr) LANES(name, m, (bytes / EL(m)), expr)
#define V4(op, expr) VEC(op##_B, b, 16, expr(b)) VEC(op##_H, h, 16, expr(h)) VEC(op##_W, w, 16, expr(w)) VEC(op##_D, d, 16, expr(d))
#define V4U(op, expr) VEC(op##_B, bu, 16, expr(bu)) VEC(op##_H, hu, 16, expr(hu)) VEC(op##_W, wu, 16, expr(wu)) VEC(op##_D, du, 16, expr(du))
#define E_ADD(m) (u64)j.m[i] + (u64)k.m[i]
#define E_SUB(m) (u64)j.m[i] - (u64)k.m[i]
#define E_MUL(m) (u64)j.m[i] * (u64)k.m[i]
#define E_MADD(m) (u64)d.m[i] + (u64)j.m[i] * (u64)k.m[i]
#define E_SLT(m) j.m[i] < k.m[i] ? -1 : 0
#define E_MAX(m) j.m[i] > k.m[i] ? j.m[i] : k.m[i]
#define E_MIN(m) j.m[i] < k.m[i] ? j.m[i] : k.m[i]
V4U(VADD, E_ADD) V4U(VSUB, E_SUB) V4U(VMUL, E_MUL) V4U(VMADD, E_MADD) V4(VSLT, E_SLT) V4(VMAX, E_MAX) V4(VMIN, E_MIN)
VEC(VMAX_BU, bu, 16, E_MAX(bu)) VEC(VMAX_HU, hu, 16, E_MAX(hu)) VEC(VMAX_WU, wu, 16, E_MAX(wu)) VEC(VMAX_DU, du, 16, E_MAX(du))
VEC(VMIN_BU, bu, 16, E_MIN(bu)) VEC(VMIN_HU, hu, 16, E_MIN(hu)) VEC(VMIN_WU, wu, 16, E_MIN(wu)) VEC(VMIN_DU, du, 16, E_MIN(du))
VEC(VADDI_BU, bu, 16, j.bu[i] + field(w, 10, 5)) VEC(VADDI_HU, hu, 16, j.hu[i] + field(w, 10, 5)) VEC(VADDI_WU, wu, 16, j.wu[i] + field(w, 10, 5)) VEC(VADDI_DU, du, 16, j.du[i] + field(w, 10, 5))
VEC(VAND_V, du, 16, j.du[i] & k.du[i]) VEC(VOR_V, du, 16, j.du[i] | k.du[i]) VEC(VXOR_V, du, 16, j.du[i] ^ k.du[i]) VEC(VNOR_V, du, 16, ~(j.du[i] | k.du[i])) VEC(VORN_V, du, 16, j.du[i] | ~k.du[i])
VEC(VORI_B, bu, 16, j.bu[i] | field(w, 10, 8)) VEC(VBITSEL_V, du, 16, (k.du[i] & a.du[i]) | (j.du[i] & ~a.du[i]))
VEC(VBITREVI_D, du, 16, j.du[i] ^ (1ull << field(w, 10, 6)))
VEC(VSLLI_B, bu, 16, (u64)j.bu[i] << field(w, 10, 3)) VEC(VSLLI_H, hu, 16, (u64)j.hu[i] << field(w, 10, 4)) VEC(VSLLI_W, wu, 16, (u64)j.wu[i] << field(w, 10, 5)) VEC(VSLLI_D, du, 16, (u64)j.du[i] << field(w, 10, 6))
VEC(VPCNT_B, bu, 16, __builtin_popcount(j.bu[i])) VEC(VPCNT_H, hu, 16, __builtin_popcount(j.hu[i])) VEC(VPCNT_W, wu, 16, __builtin_popcount(j.wu[i])) VEC(VPCNT_D, du, 16, __builtin_popcountll(j.du[i]))
VEC(VSEQ_B, b, 16, j.b[i] == k.b[i] ? -1 : 0)
VEC(VSEQI_B, b, 16, (s64)j.b[i] == sfield(w, 10, 5) ? -1 : 0) VEC(VSEQI_H, h, 16, (s64)j.h[i] == sfield(w, 10, 5) ? -1 : 0) VEC(VSEQI_W, w, 16, (s64)j.w[i] == sfield(w, 10, 5) ? -1 : 0) VEC(VSEQI_D, d, 16, j.d[i] == sfield(w, 10, 5) ? -1 : 0)
VEC(VILVL_B, bu, 16, i & 1 ? j.bu[i / 2] : k.bu[i / 2]) VEC(VILVL_H, hu, 16, i & 1 ? j.hu[i / 2] : k.hu[i / 2]) VEC(VILVL_W, wu, 16, i & 1 ? j.wu[i / 2] : k.wu[i / 2]) VEC(VILVL_D, du, 16, i & 1 ? j.du[0] : k.du[0])
VEC(VILVH_D, du, 16, i & 1 ? j.du[1] : k.du[1])
VEC(VPICKEV_W, wu, 16, i < 2 ? k.wu[2 * i] : j.wu[2 * (i - 2)])
VEC(VHADDW_D_W, d, 16, (s64)j.w[2 * i + 1] + (s64)k.w[2 * i])
VEC(VREPLVEI_D, du, 16, field(w, 10, 1) ? j.du[1] : j.du[0])
VEC(VREPLGR2VR_B, bu, 16, G(RJ)) VEC(VREPLGR2VR_H, hu, 16, G(RJ)) VEC(VREPLGR2VR_W, wu, 16, G(RJ)) VEC(VREPLGR2VR_D, du, 16, G(RJ))
VEC(VINSGR2VR_B, bu, 16, i == field(w, 10, 4) ? G(RJ) : d.bu[i]) VEC(VINSGR2VR_H, hu, 16, i == field(w, 10, 3) ? G(RJ) : d.hu[i]) VEC(VINSGR2VR_W, wu, 16, i == field(w, 10, 2) ? G(RJ) : d.wu[i]) VEC(VINSGR2VR_D, du, 16, i == field(w, 10, 1) ? G(RJ) : d.du[i])
#define PICK(name, m, S, bits) INSN(name) { G(RD) = (S)V(RJ).m[field(w, 10, bits)]; }
PICK(VPICKVE2GR_B, b, s64, 4) PICK(VPICKVE2GR_H, h, s64, 3) PICK(VPICKVE2GR_W, w, s64, 2) PICK(VPICKVE2GR_D, d, s64, 1) PICK(VPICKVE2GR_BU, bu, u64, 4) PICK(VPICKVE2GR_HU, hu, u64, 3) PICK(VPICKVE2GR_WU, wu, u64, 2) PICK(VPICKVE2GR_DU, du, u64, 1)
PICK(XVPICKVE2GR_W, w, s64, 3)
VEC(VFADD_D, df, 16, j.df[i] + k.df[i]) VEC(VFMUL_S, f, 16, j.f[i] * k.f[i]) VEC(VFMUL_D, df, 16, j.df[i] * k.df[i]) VEC(VFDIV_D, df, 16, j.df[i] / k.df[i])
VEC(VFMADD_D, df, 16, j.df[i] * k.df[i] + a.df[i]) VEC(VFNMADD_D, df, 16, -(j.df[i] * k.df[i] + a.df[i]))
VEC(VFTINTRZ_W_S, w, 16, (s32)j.f[i]) VEC(VFTINTRZ_L_D, d, 16, (s64)j.df[i])
VEC(VFCMP_COND_D, d, 16, fcmp(RA4, j.df[i], k.df[i]) ? -1 : 0)
INSN(VSHUF_B) { const V256 j = V(RJ), k = V(RK), a = V(RA4); u8 r[16]; for (unsigned i = 0; i < 16; i++) { unsigned n = a.bu[i] & 31; r[i] = n < 16 ? k.bu[n & 15] : j.bu[n & 15]; } for (unsigned i = 0; i < 16; i++) V(RD).bu[i] = r[i]; }
INSN(VMSKNZ_B) { const V256 j = V(RJ); u64 m = 0; for (unsigned i = 0; i < 16; i++) m |= (u64)(j.bu[i] != 0) << i; V(RD).du[0] = m; V(RD).du[1] = 0; }
INSN(VSETANYEQZ_B) { const V256 j = V(RJ); bool any = false; for (unsigned i = 0; i < 16; i++) any = any | (j.bu[i] == 0); c.registers().set_cf(w & 7, any); }
INSN(VSETALLNEZ_B) { const V256 j = V(RJ); bool all = true; for (unsigned i = 0; i < 16; i++) all = all & (j.bu[i] != 0); c.registers().set_cf(w & 7, all); }
INSN(VFRSTPI_B) { const V256 j = V(RJ); u8 n = 16; for (int i = 15; i >= 0; i--) if (j.b[i] < 0) n = i; V256 d = V(RD); unsigned at = field(w, 10, 4); for (unsigned i = 0; i < 16; i++) V(RD).bu[i] = i == at ? n : d.bu[i]; }
static inline u64 vldi(u32 w) {
	u64 imm = field(w, 5, 13), t = imm & 255;
	if (!(imm >> 12)) { s64 s = sx(imm, 10); switch (imm >> 10) { case 0: return t * 0x0101010101010101ull; case 1: return (u64)(u16)s * 0x0001000100010001ull; case 2: return (u64)(u32)s * 0x0000000100000001ull; default: return s; } }
	u64 f32 = ((t >> 7) << 31) | ((t >> 6 & 1) * (0x1Full << 25)) | ((t >> 6 & 1 ^ 1) << 30) | ((t & 63) << 19), f64 = ((t >> 7) << 63) | ((t >> 6 & 1) * (0xFFull << 54)) | ((t >> 6 & 1 ^ 1) << 62) | ((t & 63) << 48);
	switch (imm >> 8 & 15) {
	case 0: return t << 32 | t; case 1: return t << 40 | t << 8; case 2: return t << 48 | t << 16; case 3: return t << 56 | t << 24;
	case 4: return t << 48 | t << 32 | t << 16 | t; case 5: return t << 56 | t << 40 | t << 24 | t << 8;
	case 6: return t << 40 | 0xFFull << 32 | t << 8 | 0xFF; case 7: return t << 48 | 0xFFFFull << 32 | t << 16 | 0xFFFF;
	case 8: return t * 0x0101010101010101ull;
	case 9: { u64 r = 0; for (unsigned i = 0; i < 8; i++) r |= (t >> i & 1 ? 0xFFull : 0) << 8 * i; return r; }
	case 10: return f32 << 32 | f32; case 11: return f32; case 12: return f64; default: lva_unspecified(); return 0;
	}
}
INSN(VLDI) { u64 v = vldi(w); V(RD).du[0] = v; V(RD).du[1] = v; }

// ---- LASX: lane L is the L-th 128-bit half ----
typedef std::array<u64, 4> Q4;
INSN(XVLD) { Q4 q = rd<Q4>(c, a12(c, w)); for (unsigned i = 0; i < 4; i++) V(RD).du[i] = q[i]; }
INSN(XVLDX) { Q4 q = rd<Q4>(c, ax(c, w)); for (unsigned i = 0; i < 4; i++) V(RD).du[i] = q[i]; }
INSN(XVST) { wr<Q4>(c, a12(c, w), Q4{V(RD).du[0], V(RD).du[1], V(RD).du[2], V(RD).du[3]}); }
INSN(XVSTX) { wr<Q4>(c, ax(c, w), Q4{V(RD).du[0], V(RD).du[1], V(RD).du[2], V(RD).du[3]}); }
INSN(XVLDI) { u64 v = vldi(w); for (unsigned i = 0; i < 4; i++) V(RD).du[i] = v; }
VEC(XVADD_D, du, 32, j.du[i] + k.du[i]) VEC(XVSUB_W, wu, 32, j.wu[i] - k.wu[i]) VEC(XVMAX_BU, bu, 32, E_MAX(bu)) VEC(XVMIN_BU, bu, 32, E_MIN(bu))
VEC(XVXOR_V, du, 32, j.du[i] ^ k.du[i]) VEC(XVBITSEL_V, du, 32, (k.du[i] & a.du[i]) | (j.du[i] & ~a.du[i])) VEC(XVORI_B, bu, 32, j.bu[i] | field(w, 10, 8)) VEC(XVXORI_B, bu, 32, j.bu[i] ^ field(w, 10, 8))
VEC(XVBITREVI_D, du, 32, j.du[i] ^ (1ull << field(w, 10, 6)))
VEC(XVSEQ_B, b, 32, j.b[i] == k.b[i] ? -1 : 0)
VEC(XVREPLGR2VR_B, bu, 32, G(RJ))
VEC(XVHADDW_D_W, d, 32, (s64)j.w[2 * i + 1] + (s64)k.w[2 * i])
INSN(XVHADDW_Q_D) { const V256 j = V(RJ), k = V(RK); for (unsigned L = 0; L < 2; L++) { s128 s = (s128)j.d[2 * L + 1] + (s128)k.d[2 * L]; V(RD).du[2 * L] = (u64)s; V(RD).du[2 * L + 1] = (u64)(s >> 64); } }
VEC(XVILVL_D, du, 32, i & 1 ? j.du[i & 2] : k.du[i & 2]) VEC(XVILVH_D, du, 32, i & 1 ? j.du[(i & 2) + 1] : k.du[(i & 2) + 1])
VEC(XVPACKEV_D, du, 32, i & 1 ? j.du[i & 2] : k.du[i & 2]) VEC(XVPACKOD_D, du, 32, i & 1 ? j.du[(i & 2) + 1] : k.du[(i & 2) + 1])
VEC(XVPICKEV_D, du, 32, i & 1 ? j.du[i & 2] : k.du[i & 2]) VEC(XVPICKOD_D, du, 32, i & 1 ? j.du[(i & 2) + 1] : k.du[(i & 2) + 1])
VEC(XVPICKEV_W, wu, 32, i & 2 ? j.wu[(i & 4) + 2 * (i & 1)] : k.wu[(i & 4) + 2 * (i & 1)])
VEC(XVPICKVE_W, wu, 32, i ? 0 : j.wu[field(w, 10, 3)])
VEC(XVREPLVE_D, du, 32, G(RK) & 1 ? j.du[(i & 2) + 1] : j.du[i & 2])
VEC(XVPERMI_D, du, 32, j.du[field(w, 10, 8) >> 2 * i & 3])
INSN(XVPERMI_Q) { const V256 j = V(RJ), d = V(RD); unsigned u = field(w, 10, 8); for (unsigned L = 0; L < 2; L++) { unsigned s = u >> 4 * L & 3; V(RD).du[2 * L] = s == 0 ? j.du[0] : s == 1 ? j.du[2] : s == 2 ? d.du[0] : d.du[2]; V(RD).du[2 * L + 1] = s == 0 ? j.du[1] : s == 1 ? j.du[3] : s == 2 ? d.du[1] : d.du[3]; } }
INSN(XVMSKNZ_B) { const V256 j = V(RJ); for (unsigned L = 0; L < 2; L++) { u64 m = 0; for (unsigned i = 0; i < 16; i++) m |= (u64)(j.bu[16 * L + i] != 0) << i; V(RD).du[2 * L] = m; V(RD).du[2 * L + 1] = 0; } }
INSN(XVSETANYEQZ_B) { const V256 j = V(RJ); bool any = false; for (unsigned i = 0; i < 32; i++) any = any | (j.bu[i] == 0); c.registers().set_cf(w & 7, any); }
INSN(XVSETEQZ_V) { const V256 j = V(RJ); c.registers().set_cf(w & 7, (j.du[0] | j.du[1] | j.du[2] | j.du[3]) == 0); }
VEC(XVFADD_D, df, 32, j.df[i] + k.df[i]) VEC(XVFSUB_D, df, 32, j.df[i] - k.df[i]) VEC(XVFMUL_D, df, 32, j.df[i] * k.df[i]) VEC(XVFDIV_D, df, 32, j.df[i] / k.df[i])
VEC(XVFMADD_S, f, 32, j.f[i] * k.f[i] + a.f[i]) VEC(XVFMADD_D, df, 32, j.df[i] * k.df[i] + a.df[i]) VEC(XVFMSUB_S, f, 32, j.f[i] * k.f[i] - a.f[i]) VEC(XVFMSUB_D, df, 32, j.df[i] * k.df[i] - a.df[i])
VEC(XVFNMADD_S, f, 32, -(j.f[i] * k.f[i] + a.f[i])) VEC(XVFNMADD_D, df, 32, -(j.df[i] * k.df[i] + a.df[i])) VEC(XVFNMSUB_S, f, 32, -(j.f[i] * k.f[i] - a.f[i])) VEC(XVFNMSUB_D, df, 32, -(j.df[i] * k.df[i] - a.df[i]))
VEC(XVFCMP_COND_D, d, 32, fcmp(RA4, j.df[i], k.df[i]) ? -1 : 0)
