/* Calls the C interface through the published headers; everything crosses to the harness as plain integers. */
#include "m68000-ffi.h"

typedef struct {
    int (*rd)(void *ud, uint32_t addr, int size, uint32_t *out);
    int (*wr)(void *ud, uint32_t addr, int size, uint32_t data);
    void (*rst)(void *ud);
    void *ud;
} ops_t;

static m68000_memory_result_t rd(void *u, uint32_t a, int n)
{
    ops_t *o = u;
    m68000_memory_result_t r;
    r.exception = (uint8_t)o->rd(o->ud, a, n, &r.data);
    return r;
}
static m68000_memory_result_t wr(void *u, uint32_t a, int n, uint32_t d)
{
    ops_t *o = u;
    m68000_memory_result_t r;
    r.exception = (uint8_t)o->wr(o->ud, a, n, d);
    r.data = 0x5A5A5A5A;
    return r;
}
static m68000_memory_result_t get_byte(uint32_t a, void *u) { return rd(u, a, 1); }
static m68000_memory_result_t get_word(uint32_t a, void *u) { return rd(u, a, 2); }
static m68000_memory_result_t get_long(uint32_t a, void *u) { return rd(u, a, 4); }
static m68000_memory_result_t set_byte(uint32_t a, uint8_t d, void *u) { return wr(u, a, 1, d); }
static m68000_memory_result_t set_word(uint32_t a, uint16_t d, void *u) { return wr(u, a, 2, d); }
static m68000_memory_result_t set_long(uint32_t a, uint32_t d, void *u) { return wr(u, a, 4, d); }
static void reset(void *u) { ops_t *o = u; o->rst(o->ud); }

static void flat(const m68000_registers_t *r, uint32_t *f)
{
    for (int i = 0; i < 8; i++) f[i] = r->d[i];
    for (int i = 0; i < 7; i++) f[8 + i] = r->a[i];
    f[15] = r->usp; f[16] = r->ssp; f[17] = r->pc;
    f[18] = (uint32_t)r->sr.t << 15 | (uint32_t)r->sr.s << 13 | (uint32_t)r->sr.interrupt_mask << 8 | (uint32_t)r->sr.x << 4 | (uint32_t)r->sr.n << 3 | (uint32_t)r->sr.z << 2 | (uint32_t)r->sr.v << 1 | (uint32_t)r->sr.c;
}
static void unflat(m68000_registers_t *r, const uint32_t *f)
{
    for (int i = 0; i < 8; i++) r->d[i] = f[i];
    for (int i = 0; i < 7; i++) r->a[i] = f[8 + i];
    r->usp = f[15]; r->ssp = f[16]; r->pc = f[17];
    r->sr.t = f[18] >> 15 & 1; r->sr.s = f[18] >> 13 & 1; r->sr.interrupt_mask = f[18] >> 8 & 7;
    r->sr.x = f[18] >> 4 & 1; r->sr.n = f[18] >> 3 & 1; r->sr.z = f[18] >> 2 & 1; r->sr.v = f[18] >> 1 & 1; r->sr.c = f[18] & 1;
}

/* The functions come from the harness as a table, with the types of the headers. */
#define FIELD(K, n) __typeof__(&m68000_##K##_##n) n;
#define FUNCS(K, X) X(K, new) X(K, new_no_reset) X(K, delete) X(K, cycle) X(K, cycle_until_exception) X(K, loop_until_exception_stop) \
    X(K, interpreter) X(K, interpreter_exception) X(K, disassembler_interpreter) X(K, disassembler_interpreter_exception) X(K, exception) \
    X(K, get_next_word) X(K, get_next_long) X(K, peek_next_word) X(K, registers) X(K, registers_mut) X(K, get_registers) X(K, set_registers)
static struct { FUNCS(mc68000, FIELD) } f_mc68000;
static struct { FUNCS(scc68070, FIELD) } f_scc68070;

void shim_init(void *const *a, void *const *b)
{
    __builtin_memcpy(&f_mc68000, a, sizeof f_mc68000);
    __builtin_memcpy(&f_scc68070, b, sizeof f_scc68070);
}

#define CALLS(K) \
static void call_##K(int op, void *core_, m68000_callbacks_t *cb, uint64_t arg, char *str, size_t len, uint32_t *f, uint64_t *out) \
{ \
    m68000_##K##_t *core = core_; \
    m68000_exception_result_t e; m68000_disassembler_result_t d; m68000_disassembler_exception_result_t x; m68000_memory_result_t m; m68000_registers_t r; \
    switch (op) { \
    case 0: out[0] = (uintptr_t)f_##K.new(); break; \
    case 1: out[0] = (uintptr_t)f_##K.new_no_reset(); break; \
    case 2: f_##K.delete(core); break; \
    case 3: out[0] = f_##K.cycle(core, cb, (size_t)arg); break; \
    case 4: e = f_##K.cycle_until_exception(core, cb, (size_t)arg); out[0] = e.cycles; out[1] = e.exception; break; \
    case 5: e = f_##K.loop_until_exception_stop(core, cb); out[0] = e.cycles; out[1] = e.exception; break; \
    case 6: out[0] = f_##K.interpreter(core, cb); break; \
    case 7: e = f_##K.interpreter_exception(core, cb); out[0] = e.cycles; out[1] = e.exception; break; \
    case 8: d = f_##K.disassembler_interpreter(core, cb, str, len); out[0] = d.cycles; out[2] = d.pc; break; \
    case 9: x = f_##K.disassembler_interpreter_exception(core, cb, str, len); out[0] = x.cycles; out[1] = x.exception; out[2] = x.pc; break; \
    case 10: f_##K.exception(core, (m68000_vector_t)arg); break; \
    case 11: m = f_##K.get_next_word(core, cb); out[0] = m.data; out[1] = m.exception; break; \
    case 12: m = f_##K.get_next_long(core, cb); out[0] = m.data; out[1] = m.exception; break; \
    case 13: m = f_##K.peek_next_word(core, cb); out[0] = m.data; out[1] = m.exception; break; \
    case 14: out[0] = (uintptr_t)f_##K.registers(core); break; \
    case 15: out[0] = (uintptr_t)f_##K.registers_mut(core); break; \
    case 16: r = f_##K.get_registers(core); flat(&r, f); break; \
    case 17: unflat(&r, f); f_##K.set_registers(core, r); break; \
    case 18: unflat((m68000_registers_t *)(uintptr_t)arg, f); break; \
    case 19: flat((const m68000_registers_t *)(uintptr_t)arg, f); break; \
    } \
}
CALLS(mc68000)
CALLS(scc68070)

void shim_call(int kind, int op, void *core, ops_t *ops, uint64_t arg, char *str, size_t len, uint32_t *f, uint64_t *out)
{
    m68000_callbacks_t cb = {
        .get_byte = get_byte, .get_word = get_word, .get_long = get_long, .set_byte = set_byte, .set_word = set_word, .set_long = set_long,
        .reset_instruction = reset, .user_data = ops,
    };
    (kind ? call_scc68070 : call_mc68000)(op, core, &cb, arg, str, len, f, out);
}

static const uint8_t vectors[] = {
    ResetSspPc, AccessError, AddressError, IllegalInstruction, ZeroDivide, ChkInstruction, TrapVInstruction, PrivilegeViolation, Trace, LineAEmulator, LineFEmulator, FormatError,
    UninitializedInterrupt, SpuriousInterrupt, Level1Interrupt, Level2Interrupt, Level3Interrupt, Level4Interrupt, Level5Interrupt, Level6Interrupt, Level7Interrupt,
    Trap0Instruction, Trap1Instruction, Trap2Instruction, Trap3Instruction, Trap4Instruction, Trap5Instruction, Trap6Instruction, Trap7Instruction,
    Trap8Instruction, Trap9Instruction, Trap10Instruction, Trap11Instruction, Trap12Instruction, Trap13Instruction, Trap14Instruction, Trap15Instruction,
    Level1OnChipInterrupt, Level2OnChipInterrupt, Level3OnChipInterrupt, Level4OnChipInterrupt, Level5OnChipInterrupt, Level6OnChipInterrupt, Level7OnChipInterrupt, UserInterrupt,
};
size_t shim_vectors(const uint8_t **v) { *v = vectors; return sizeof vectors; }

/* An instruction of the library as a C program sees it: opcode, pc, the name of the operand form (its place below), its fields. */
static uint32_t direction(m68000_direction_t d)
{
    switch (d) {
    case RegisterToMemory: return 0; case MemoryToRegister: return 1; case DstReg: return 2; case DstEa: return 3; case Left: return 4; case Right: return 5;
    case RegisterToUsp: return 6; case UspToRegister: return 7; case RegisterToRegister: return 8; case MemoryToMemory: return 9;
    case ExchangeData: return 10; case ExchangeAddress: return 11; case ExchangeDataAddress: return 12;
    }
    return 99;
}
static uint32_t size(m68000_size_t s)
{
    switch (s) { case Byte: return 0; case Word: return 1; case Long: return 2; }
    return 99;
}
static uint32_t *mode(m68000_addressing_mode_t m, uint32_t *o)
{
    switch (m.tag) {
    case Drd: *o++ = 0; *o++ = m.drd; break;
    case Ard: *o++ = 1; *o++ = m.ard; break;
    case Ari: *o++ = 2; *o++ = m.ari; break;
    case Ariwpo: *o++ = 3; *o++ = m.ariwpo; break;
    case Ariwpr: *o++ = 4; *o++ = m.ariwpr; break;
    case Ariwd: *o++ = 5; *o++ = m.ariwd._0; *o++ = (uint32_t)m.ariwd._1; break;
    case Ariwi8: *o++ = 6; *o++ = m.ariwi8._0; *o++ = m.ariwi8._1._0; break;
    case AbsShort: *o++ = 7; *o++ = m.abs_short; break;
    case AbsLong: *o++ = 8; *o++ = m.abs_long; break;
    case Pciwd: *o++ = 9; *o++ = m.pciwd._0; *o++ = (uint32_t)m.pciwd._1; break;
    case Pciwi8: *o++ = 10; *o++ = m.pciwi8._0; *o++ = m.pciwi8._1._0; break;
    case Immediate: *o++ = 11; *o++ = m.immediate; break;
    default: *o++ = 99;
    }
    return o;
}
size_t shim_instruction(const m68000_instruction_t *i, uint32_t *out)
{
    uint32_t *o = out;
    const m68000_operands_t *p = &i->operands;
    *o++ = i->opcode; *o++ = i->pc;
#define N(v) (*o++ = (uint32_t)(v))
#define D(v) (*o++ = direction(v))
#define S(v) (*o++ = size(v))
#define A(v) (o = mode(v, o))
    switch (p->tag) {
    case NoOperands: N(0); break;
    case Immediate_: N(1); N(p->immediate); break;
#define B size_effective_address_immediate
    case SizeEffectiveAddressImmediate: N(2); S(p->B._0); A(p->B._1); N(p->B._2); break;
#undef B
#define B effective_address_count
    case EffectiveAddressCount: N(3); A(p->B._0); N(p->B._1); break;
#undef B
    case EffectiveAddress: N(4); A(p->effective_address); break;
#define B size_effective_address
    case SizeEffectiveAddress: N(5); S(p->B._0); A(p->B._1); break;
#undef B
#define B register_effective_address
    case RegisterEffectiveAddress: N(6); N(p->B._0); A(p->B._1); break;
#undef B
#define B register_direction_size_register_displacement
    case RegisterDirectionSizeRegisterDisplacement: N(7); N(p->B._0); D(p->B._1); S(p->B._2); N(p->B._3); N(p->B._4); break;
#undef B
#define B size_register_effective_address
    case SizeRegisterEffectiveAddress: N(8); S(p->B._0); N(p->B._1); A(p->B._2); break;
#undef B
#define B size_effective_address_effective_address
    case SizeEffectiveAddressEffectiveAddress: N(9); S(p->B._0); A(p->B._1); A(p->B._2); break;
#undef B
#define B register_opmode_register
    case RegisterOpmodeRegister: N(10); N(p->B._0); D(p->B._1); N(p->B._2); break;
#undef B
#define B opmode_register
    case OpmodeRegister: N(11); N(p->B._0); N(p->B._1); break;
#undef B
    case Vector: N(12); N(p->vector); break;
#define B register_displacement
    case RegisterDisplacement: N(13); N(p->B._0); N(p->B._1); break;
#undef B
    case Register: N(14); N(p->register_); break;
#define B direction_register
    case DirectionRegister: N(15); D(p->B._0); N(p->B._1); break;
#undef B
#define B direction_size_effective_address_list
    case DirectionSizeEffectiveAddressList: N(16); D(p->B._0); S(p->B._1); A(p->B._2); N(p->B._3); break;
#undef B
#define B data_size_effective_address
    case DataSizeEffectiveAddress: N(17); N(p->B._0); S(p->B._1); A(p->B._2); break;
#undef B
#define B condition_effective_address
    case ConditionEffectiveAddress: N(18); N(p->B._0); A(p->B._1); break;
#undef B
#define B condition_register_displacement
    case ConditionRegisterDisplacement: N(19); N(p->B._0); N(p->B._1); N(p->B._2); break;
#undef B
    case Displacement: N(20); N(p->displacement); break;
#define B condition_displacement
    case ConditionDisplacement: N(21); N(p->B._0); N(p->B._1); break;
#undef B
#define B register_data
    case RegisterData: N(22); N(p->B._0); N(p->B._1); break;
#undef B
#define B register_direction_size_effective_address
    case RegisterDirectionSizeEffectiveAddress: N(23); N(p->B._0); D(p->B._1); S(p->B._2); A(p->B._3); break;
#undef B
#define B register_size_effective_address
    case RegisterSizeEffectiveAddress: N(24); N(p->B._0); S(p->B._1); A(p->B._2); break;
#undef B
#define B register_size_mode_register
    case RegisterSizeModeRegister: N(25); N(p->B._0); S(p->B._1); D(p->B._2); N(p->B._3); break;
#undef B
#define B register_size_register
    case RegisterSizeRegister: N(26); N(p->B._0); S(p->B._1); N(p->B._2); break;
#undef B
#define B direction_effective_address
    case DirectionEffectiveAddress: N(27); D(p->B._0); A(p->B._1); break;
#undef B
#define B rotation_direction_size_mode_register
    case RotationDirectionSizeModeRegister: N(28); N(p->B._0); D(p->B._1); S(p->B._2); N(p->B._3); N(p->B._4); break;
#undef B
    default: N(99);
    }
    return (size_t)(o - out);
}
size_t shim_sizes(uint32_t *o)
{
    o[0] = sizeof(m68000_instruction_t); o[1] = sizeof(m68000_operands_t); o[2] = sizeof(m68000_addressing_mode_t); o[3] = sizeof(m68000_brief_extension_word_t);
    o[4] = sizeof(m68000_registers_t); o[5] = sizeof(m68000_status_register_t); o[6] = sizeof(m68000_size_t); o[7] = sizeof(m68000_direction_t);
    o[8] = m68000_status_register_t_DEFAULT;
    return 9;
}
