/* {name, properties, start, firstsleep, maxserial, queue length, save time, moves, depth, thorough depth, users, {fcrontabs}, loads, downtimes, suspends, rare moves} */
#define B(i) (1ULL << (i))
#define H10 (1u << 10)
#define AMP(c, m, h, n, o) { c, '&', m, h, n, 0, -1, 0, o, {0}, 0 }
#define ATL(c, f, first, o) { c, '@', 0, 0, 0, f, first, 0, o, {0}, 0 }
#define PCT(c, p, m, h, o) { c, '%', m, h, 0, 0, -1, p, o, {0}, 0 }
#define AMPL(c, m, h, o, a, b, d, u) { c, '&', m, h, 0, 0, -1, 0, o, {a, b, d}, u }
#define PCTL(c, p, m, h, o, a, b, d, u) { c, '%', m, h, 0, 0, -1, p, o, {a, b, d}, u }
#define ATLL(c, f, first, o, a, b, d, u) { c, '@', 0, 0, 0, f, first, 0, o, {a, b, d}, u }
#define NV(x) ((int)(sizeof(x) / sizeof *(x)))
#define ALLH 0xffffffu
#define T1000 1614592800L
#define HOUR12 ((1ULL << 60) - 1)

static LS basic[] = { AMP("b-1", B(1) | B(3), ALLH, 0, 0), AMP("b-2", B(1) | B(2), H10, 0, O_SERIAL), AMP("b-3", EVERY, ALLH, 0, 0), ATL("b-4", 50, 20, 0), PCT("b-5", 'h', B(2) | B(3), 0, 0), ATL("b-6", 60, -1, O_SERIAL) };
static LS rfreq[] = { AMP("rf2", EVERY, ALLH, 2, 0), AMP("rf3", EVERY, ALLH, 3, 0), AMP("rf3b", EVERY, ALLH, 3, O_BOOTRUN), AMP("plain", EVERY, ALLH, 0, 0) };
static LS rfreq2[] = { AMP("rf2", EVERY, ALLH, 2, O_EXESEV), AMP("rf3", EVERY, ALLH, 3, 0), AMP("rf3b", EVERY, ALLH, 2, O_BOOTRUN) };
static LS boot[] = { AMP("bt-yes", B(1) | B(2) | B(4), ALLH, 0, O_BOOTRUN), AMP("bt-no", B(1) | B(2) | B(4), ALLH, 0, 0), AMP("bt-2", EVERY, ALLH, 2, O_BOOTRUN), AMP("bt-serial", B(2) | B(3), ALLH, 0, O_BOOTRUN | O_SERIAL), AMPL("bt-lavg", B(2) | B(3), ALLH, O_BOOTRUN, 1, 0, 0, 0) };
static LS runat[] = { AMP("ra-reboot", B(2) | B(5), ALLH, 0, O_RATREBOOT), ATL("ra-reboot@", 100, 70, O_RATREBOOT), PCT("ra-reboot%", 'h', B(1) | B(2), 0, O_RATREBOOT), AMP("ra-resume", B(2) | B(5), ALLH, 0, O_RATRESUME), ATL("ra-resume@", 100, -1, O_RATRESUME), PCT("ra-resume%", 'h', B(3), 0, O_RATRESUME | O_NOTICE) };
static LS once[] = { AMP("o-amp", B(1) | B(2) | B(3), ALLH, 0, O_RUNONCE), ATL("o-at", 60, 30, O_RUNONCE), AMP("o-vol", B(1) | B(2) | B(3), ALLH, 0, O_RUNONCE | O_VOLATILE), ATL("o-reboot", 1000, -1, O_RUNONCE | O_RATREBOOT), ATL("o-resume", 1000, -1, O_RUNONCE | O_RATRESUME) };
static LS serial[] = { AMP("s-1", B(1) | B(2), ALLH, 0, O_SERIAL), AMP("s-2", B(1) | B(2), ALLH, 0, O_SERIAL | O_SSEV), AMP("s-3", B(2), ALLH, 0, O_SERIAL), ATL("s-4", 60, 95, O_SERIAL), AMP("n-5", B(1) | B(2), ALLH, 0, 0) };
static LS serialb[] = { AMP("s-1", B(1) | B(2), ALLH, 0, O_SERIAL), AMP("s-3", B(2), ALLH, 0, 0) };
static LS serialo[] = { AMP("so-1", B(1) | B(2) | B(3), ALLH, 0, O_SERIAL), AMP("so-2", EVERY, ALLH, 0, 0) };
#define SQ(i) ATL("q-" #i, 300, 20 + i, O_SERIAL)
static LS squeue[] = { SQ(1), SQ(2), SQ(3), SQ(4), SQ(5), SQ(6), SQ(7), SQ(8), SQ(9), SQ(10), SQ(11), SQ(12), SQ(13), SQ(14), SQ(15) };
static LS sfull[] = { ATL("f-1", 60, 21, O_SERIAL), ATL("f-2", 60, 22, O_SERIAL), ATL("f-3", 60, 23, O_SERIAL | O_SSEV), ATL("f-4", 60, 24, O_SERIAL), ATL("f-5", 60, 25, O_SERIAL), ATL("f-6", 60, 26, O_SERIAL), ATL("f-7", 60, 27, O_SERIAL | O_NOTICE), ATL("f-8", 60, 28, O_SERIAL) };
static LS lavg[] = { AMPL("l-and", B(1) | B(3), ALLH, 0, 1, 2, 0, 0), AMPL("l-or", B(1) | B(3), ALLH, O_LOR, 1, 2, 0, 0), AMPL("l-15", B(1), ALLH, 0, 0, 0, 3, 0), AMPL("l-until", B(1) | B(2), ALLH, 0, 0.5, 0, 0, 40), ATLL("l-at", 90, 30, 0, 1, 1, 1, 0) };
static LS lavgser[] = { AMPL("ls-1", B(1) | B(2), ALLH, O_SERIAL, 1, 0, 0, 0), AMPL("ls-2", B(1) | B(2), ALLH, O_SERIAL, 1, 0, 0, 0), AMPL("ls-3", B(1) | B(2), ALLH, O_SERIAL | O_LSEV, 1, 0, 0, 0), AMP("sr-1", B(1) | B(2), ALLH, 0, O_SERIAL) };
static LS lstrict[] = { PCTL("st-1", 'h', B(1) | B(2), 0, 0, 1, 0, 0, 0), PCTL("st-2", 'h', B(1) | B(2), 0, O_NOSTRICT, 1, 0, 0, 0), PCTL("st-3", 'h', B(1) | B(2) | B(3), 0, O_NOTICE, 1, 0, 0, 0), PCTL("st-4", 'h', B(1) | B(2) | B(3) | B(4), 0, 0, 1, 0, 0, 45), PCTL("st-5", 'h', B(1), 0, 0, 1, 0, 0, 300) };
static LS notice[] = { AMP("no-amp", B(1) | B(3), ALLH, 0, O_NOTICE), PCT("no-hour", 'h', B(1) | B(2), 0, O_NOTICE), AMP("no-reboot", B(2) | B(30), ALLH, 0, O_NOTICE | O_RATREBOOT), PCT("no-rb%", 'h', B(2), 0, O_NOTICE | O_RATREBOOT), AMP("no-resume", B(4), ALLH, 0, O_NOTICE | O_RATRESUME) };
static LS atl[] = { ATL("a-100", 100, -1, 0), ATL("a-first", 100, 30, 0), ATL("a-first0", 90, 0, 0), ATL("a-vol", 80, -1, O_VOLATILE), ATL("a-reset", 70, -1, O_REBRESET), ATL("a-big", 2000000000L, -1, 0) };
static LS atl2[] = { ATL("a-100", 100, 7, 0), ATL("a-first", 101, 30, 0) };
static LS susp[] = { ATL("p-at", 100, -1, 0), AMP("p-amp", B(1) | B(2), ALLH, 0, 0), AMP("p-boot", B(1) | B(2), ALLH, 0, O_BOOTRUN), ATL("p-vol", 90, -1, O_VOLATILE), PCT("p-hour", 'h', B(1) | B(2), 0, 0) };
static LS fail[] = { AMP("x-1", B(1) | B(2) | B(3), ALLH, 0, 0), AMP("x-2", B(1) | B(2) | B(3), ALLH, 0, O_SERIAL), AMPL("x-3", B(1) | B(2) | B(3), ALLH, O_SERIAL, 1, 0, 0, 0) };
static LS fail1[] = { AMP("y-1", B(1) | B(2) | B(3), ALLH, 0, 0), ATL("y-2", 60, 30, O_EXESEV) };
static LS insA[] = { AMP("iA-1", B(1) | B(2), ALLH, 0, 0), AMP("iA-2", B(2), ALLH, 0, O_SERIAL), ATL("iA-3", 100, -1, 0) };
static LS insA2[] = { ATL("iA-3", 100, 20, 0), AMP("iA-2", B(3), ALLH, 0, O_SERIAL), AMP("iA-4", B(1) | B(2), ALLH, 0, 0) };
static LS insB[] = { AMP("iB-1", B(1) | B(2), ALLH, 0, O_SERIAL), AMPL("iB-2", B(1) | B(2), ALLH, 0, 1, 0, 0, 0), AMP("iB-3", B(1), ALLH, 0, 0) };
static LS insB2[] = { AMP("iB-1", B(1) | B(2), ALLH, 0, O_SERIAL), AMP("iB-5", B(2), ALLH, 0, O_RUNONCE) };
static LS insC[] = { AMP("iC-1", B(2), ALLH, 0, 0) };
static LS restA[] = { AMP("rA-1", B(1) | B(2), ALLH, 0, 0), AMP("rA-2", B(1), ALLH, 0, O_SERIAL), ATL("rA-3", 100, -1, 0), AMP("rA-4", B(1), ALLH, 0, O_SERIAL), AMPL("rA-5", B(1), ALLH, 0, 1, 0, 0, 0) };
static LS restB[] = { AMP("rB-1", B(1) | B(2), ALLH, 0, 0), AMP("rB-2", B(1) | B(2), ALLH, 2, 0), AMP("rB-3", B(2), ALLH, 0, O_RATREBOOT) };
static LS ovl[] = { AMP("v-once", EVERY, ALLH, 0, 0), AMP("v-sev", EVERY, ALLH, 0, O_EXESEV), AMP("v-ser", EVERY, ALLH, 0, O_SERIAL), AMP("v-sersev", EVERY, ALLH, 0, O_SERIAL | O_SSEV) };
static LS ovl2[] = { ATLL("v-l", 30, 30, 0, 1, 0, 0, 0), ATLL("v-lsev", 30, 30, O_LSEV, 1, 0, 0, 0), ATLL("v-lser", 30, 30, O_SERIAL, 1, 0, 0, 0), AMP("v-boot", EVERY, ALLH, 0, O_BOOTRUN) };
static LS empty1[] = { AMP("far", B(59), 1u << 9, 0, 0) };
#define TZL(n, z) static LS n[] = { { "tz-amp", '&', B(2) | B(4), 3u << 10 | 3u << 13, 0, 0, -1, 0, 0, {0}, 0, z }, { "tz-rf", '&', B(1) | B(3), 3u << 10 | 3u << 13, 2, 0, -1, 0, 0, {0}, 0, z }, { "tz-day", '%', B(2) | B(3), 3u << 10 | 3u << 13, 0, 0, -1, 'd', 0, {0}, 0, z }, { "tz-hour", '%', B(2), 0, 0, 0, -1, 'h', 0, {0}, 0, z }, { "tz-at", '@', 0, 0, 0, 170, 70, 0, 0, {0}, 0, z } };
TZL(tz0, 0) TZL(tz2, 2) TZL(tzm, -3)

#define WQ(i, f) ATL("w-" #i, 3000, f, O_SERIAL)
static LS wrapA[] = { WQ(1, 21), WQ(2, 22), WQ(3, 23), WQ(4, 24), WQ(5, 25), WQ(6, 26), WQ(7, 27), WQ(8, 29), WQ(9, 71), WQ(10, 73), WQ(11, 75) };
static LS wrapA2[] = { WQ(1, 21), WQ(2, 22), WQ(3, 23), WQ(8, 29), WQ(9, 71), WQ(12, 73), AMP("wn", B(1) | B(2), ALLH, 0, O_SERIAL) };
static LS wrapB[] = { ATL("wb-1", 3000, 28, O_SERIAL), ATL("wb-2", 3000, 72, O_SERIAL), ATL("wb-3", 3000, 74, O_SERIAL), ATL("wb-4", 3000, 90, 0) };
static LS wrapB2[] = { ATL("wb-2", 3000, 90, O_SERIAL) };

static LS dynA[] = { AMP("da-1", B(1) | B(2), ALLH, 0, 0), AMP("da-ser2", B(2) | B(3), ALLH, 0, O_SERIAL | O_SSEV), ATL("da-at", 100, 45, O_EXESEV) };
static LS dynC[] = { AMP("dc-1", B(1) | B(2), ALLH, 0, 0) };
static LS dynR[] = { AMP("dr-1", B(1) | B(2), ALLH, 0, 0), AMP("dr-ser", B(1) | B(2), ALLH, 2, O_SERIAL | O_SSEV), ATL("dr-at", 100, 45, O_EXESEV), ATL("dr-once", 1000, -1, O_RUNONCE) };
static LS dynA2[] = { AMP("da-1", B(1) | B(2), ALLH, 0, 0), AMP("da-new", B(3), ALLH, 0, O_SERIAL) };
static LS dynB[] = { PCT("db-hour", 'h', B(1) | B(2), 0, 0), AMP("db-ser", B(1), ALLH, 0, O_SERIAL), AMP("db-once", B(2), ALLH, 0, O_RUNONCE) };
static LS dynS[] = { AMP("sys-1", B(1) | B(3), ALLH, 0, 0) };
static LS dynQ[] = { AMPL("dq-or", B(1), ALLH, O_LOR | O_LSEV, 1, 2, 0, 0), AMPL("dq-ser", B(1), ALLH, O_SERIAL, 1, 0, 0, 0), PCTL("dq-strict", 'h', B(1) | B(2), 0, 0, 1, 0, 0, 0), PCTL("dq-nostrict", 'h', B(1) | B(2), 0, O_NOSTRICT, 1.5, 2, 2.5, 90), ATLL("dq-at", 70, 30, O_LSEV, 0.5, 0, 0, 0) };

static SC scenarios[] = {
    { "basic", "C05 C06 C07 C08 C12", T1000, 20, 1, 30, 1800, M_T | M_TL | M_TLL | M_X, 8, 11, 1, {{ "alice", 1, { basic }, { NV(basic) } }}, 1, {{0}} },
    { "due-together", "C07 C09 C12", T1000 + 50, 75, 2, 30, 1800, M_T | M_TL | M_X, 6, 9, 2, {{ "alice", 1, { basic }, { NV(basic) } }, { "bob", 1, { serial }, { NV(serial) } }}, 1, {{0}} },
    { "runfreq", "C06 C17 C14", T1000, 20, 1, 30, 1800, M_T | M_X | M_R | M_K | M_E | M_S | M_U, 9, 12, 1, {{ "alice", 2, { rfreq, rfreq2 }, { NV(rfreq), NV(rfreq2) } }}, 1, {{0}}, 2, { 10, 130 }, 1, { 130 }, 1 },
    { "bootrun", "C15 C08 C06", T1000, 20, 1, 30, 1800, M_T | M_X | M_R | M_S | M_BOOT, 8, 10, 1, {{ "alice", 1, { boot }, { NV(boot) } }}, 1, {{0}}, 2, { 5, 150 }, 1, { 150 }, 2 },
    { "runat", "C15", T1000, 20, 1, 30, 1800, M_T | M_X | M_R | M_S | M_BOOT, 7, 9, 1, {{ "alice", 1, { runat }, { NV(runat) } }}, 1, {{0}}, 2, { 5, 90 }, 2, { 7, 90 }, 2 },
    { "runonce", "C15 C07", T1000, 20, 1, 30, 1800, M_T | M_X | M_R | M_S | M_BOOT | M_E | M_K, 7, 9, 1, {{ "alice", 1, { once }, { NV(once) } }}, 1, {{0}}, 1, { 25 }, 1, { 30 }, 2 },
    { "serial", "C09 C08 C14", T1000, 20, 1, 30, 1800, M_T | M_X | M_E | M_U, 8, 10, 2, {{ "alice", 2, { serial, serialb }, { NV(serial), NV(serialb) } }, { "bob", 1, { serialo }, { NV(serialo) } }}, 1, {{0}}, 0, {0}, 0, {0}, 1 },
    { "serial2", "C09", T1000, 20, 2, 30, 1800, M_T | M_TL | M_X | M_MULTI, 8, 11, 2, {{ "alice", 1, { serial }, { NV(serial) } }, { "bob", 1, { serialo }, { NV(serialo) } }}, 1, {{0}} },
    { "serial-growth", "C09 C07", T1000, 20, 1, 30, 1800, M_T | M_X | M_E, 16, 22, 2, {{ "alice", 1, { squeue }, { NV(squeue) } }, { "bob", 1, { empty1 }, { NV(empty1) } }}, 1, {{0}}, 0, {0}, 0, {0}, 0 },
    { "serial-late", "C09 C07", T1000, 45, 1, 30, 1800, M_T | M_X | M_E, 12, 18, 2, {{ "alice", 1, { squeue }, { NV(squeue) } }, { "bob", 2, { empty1, serialo }, { NV(empty1), NV(serialo) } }}, 1, {{0}}, 0, {0}, 0, {0}, 1 },
    { "serial-full", "C09", T1000, 20, 1, 5, 1800, M_T | M_X, 12, 14, 1, {{ "alice", 1, { sfull }, { NV(sfull) } }}, 1, {{0}} },
    { "lavg", "C10 C12", T1000, 20, 1, 30, 1800, M_T | M_X | M_L, 10, 14, 1, {{ "alice", 1, { lavg }, { NV(lavg) } }}, 4, {{ 5, 5, 5 }, { 0.9, 1.9, 2.9 }, { 1.0, 1.9, 5 }, { 0.9, 2.0, 5 }} },
    { "lavg-serial", "C10 C09 C11", T1000, 20, 1, 30, 1800, M_T | M_X | M_L | M_E, 11, 14, 1, {{ "alice", 1, { lavgser }, { NV(lavgser) } }}, 2, {{ 5, 5, 5 }, { 0.5, 0, 0 }}, 0, {0}, 0, {0}, 1 },
    { "lavg-strict", "C10", T1000, 20, 1, 30, 1800, M_T | M_TL | M_X | M_L, 9, 12, 1, {{ "alice", 1, { lstrict }, { NV(lstrict) } }}, 2, {{ 5, 5, 5 }, { 0.5, 0, 0 }} },
    { "notice", "C15", T1000, 20, 1, 30, 1800, M_T | M_X | M_R | M_S | M_BOOT, 7, 9, 1, {{ "alice", 1, { notice }, { NV(notice) } }}, 1, {{0}}, 3, { 5, 130, 7300 }, 2, { 130, 7300 }, 2 },
    { "elapsed", "C05 C17", T1000, 20, 1, 30, 60, M_T | M_TL | M_X | M_R | M_K | M_S | M_E | M_BOOT, 7, 9, 1, {{ "alice", 2, { atl, atl2 }, { NV(atl), NV(atl2) } }}, 1, {{0}}, 2, { 13, 500 }, 1, { 41 }, 2 },
    { "suspend", "C16 C05", T1000, 20, 1, 30, 1800, M_T | M_TL | M_TLL | M_X | M_S | M_E, 6, 8, 1, {{ "alice", 1, { susp }, { NV(susp) } }}, 1, {{0}}, 0, {0}, 4, { 3, 5, 8, 70 }, 2 },
    { "failing", "C11 C09", T1000, 20, 1, 30, 1800, M_T | M_X | M_F | M_P, 8, 10, 1, {{ "alice", 1, { fail }, { NV(fail) } }}, 1, {{ 0 }}, 0, {0}, 0, {0}, 2 },
    { "failing-plain", "C11 C08", T1000, 20, 1, 30, 1800, M_T | M_X | M_F | M_P | M_R | M_U, 9, 11, 1, {{ "alice", 1, { fail1 }, { NV(fail1) } }}, 1, {{ 0 }}, 1, {10}, 0, {0}, 2 },
    { "install", "C14", T1000, 20, 1, 30, 1800, M_T | M_X | M_E, 6, 7, 3, {{ "alice", 2, { insA, insA2 }, { NV(insA), NV(insA2) } }, { "bob", 2, { insB, insB2 }, { NV(insB), NV(insB2) } }, { "carol", 1, { insC }, { NV(insC) } }}, 1, {{ 5, 5, 5 }}, 0, {0}, 0, {0}, 2 },
    { "install-multi", "C14", T1000 + 30, 20, 1, 30, 1800, M_T | M_E | M_MULTI, 6, 8, 3, {{ "alice", 2, { insA, insA2 }, { NV(insA), NV(insA2) } }, { "bob", 2, { insB, insB2 }, { NV(insB), NV(insB2) } }, { "carol", 1, { insC }, { NV(insC) } }}, 1, {{ 0 }}, 0, {0}, 0, {0}, 3 },
    { "install-wrapped", "C14 C09", T1000, 45, 6, 30, 1800, M_T | M_X | M_X1 | M_E, 9, 12, 2, {{ "alice", 2, { wrapA, wrapA2 }, { NV(wrapA), NV(wrapA2) } }, { "bob", 2, { wrapB, wrapB2 }, { NV(wrapB), NV(wrapB2) } }}, 1, {{ 0 }}, 0, {0}, 0, {0}, 1 },
    { "restart", "C17 C15 C11", T1000, 20, 1, 30, 1800, M_T | M_X | M_R | M_K | M_U | M_BOOT, 8, 10, 2, {{ "alice", 1, { restA }, { NV(restA) } }, { "bob", 1, { restB }, { NV(restB) } }}, 1, {{ 5, 5, 5 }}, 2, { 5, 70 }, 0, {0}, 2 },
    { "overlap", "C08", T1000, 20, 1, 30, 1800, M_T | M_X | M_R, 8, 10, 1, {{ "alice", 1, { ovl }, { NV(ovl) } }}, 1, {{ 0 }}, 1, { 70 }, 0, {0}, 1 },
    { "overlap-lavg", "C08 C10", T1000, 20, 1, 30, 1800, M_T | M_X | M_L | M_R, 9, 11, 1, {{ "alice", 1, { ovl2 }, { NV(ovl2) } }}, 2, {{ 5, 5, 5 }, { 0 }}, 1, { 70 }, 0, {0}, 1 },
    { "tzdiff", "C14 C17", T1000, 20, 1, 30, 1800, M_T | M_E | M_R, 12, 14, 1, {{ "alice", 3, { tz0, tz2, tzm }, { NV(tz0), NV(tz2), NV(tzm) } }}, 1, {{ 0 }}, 1, { 8000 }, 0, {0}, 2 },
    { "save", "C17 C12", T1000, 20, 1, 30, 60, M_T | M_TL | M_X | M_K | M_R, 9, 11, 1, {{ "alice", 1, { restA }, { NV(restA) } }}, 1, {{ 5, 5, 5 }}, 1, { 5 }, 0, {0}, 2 },
    { "dyn", "C35 C37 C39", T1000, 20, 1, 30, 1800, M_D | M_T | M_X | M_X1 | M_E, 5, 6, 3, {{ "alice", 2, { dynA, dynA2 }, { NV(dynA), NV(dynA2) } }, { "bob", 1, { dynB }, { NV(dynB) } }, { "systab", 1, { dynS }, { NV(dynS) } }}, 1, {{ 5, 5, 5 }}, 0, {0}, 0, {0}, 1 },
    { "dyn-lavg", "C35 C37 C39", T1000, 20, 1, 30, 1800, M_D | M_T | M_X | M_X1 | M_L, 5, 7, 2, {{ "bob", 1, { dynQ }, { NV(dynQ) } }, { "alice2", 1, { dynC }, { NV(dynC) } }}, 2, {{ 5, 5, 5 }, { 0.5, 0.2, 0.1 }}, 0, {0}, 0, {0}, 1 },
    { "dyn-restart", "C35 C37 C39", T1000, 20, 2, 5, 1800, M_D | M_T | M_X | M_X1 | M_R | M_U | M_F | M_BOOT, 5, 6, 2, {{ "bob", 1, { dynR }, { NV(dynR) } }, { "alice", 1, { dynC }, { NV(dynC) } }}, 1, {{ 5, 5, 5 }}, 1, { 10 }, 0, {0}, 1 },
    { "dyn-serial", "C35 C37 C39", T1000, 45, 6, 30, 1800, M_D | M_DQ | M_T | M_X | M_X1, 15, 19, 2, {{ "alice", 1, { wrapA }, { NV(wrapA) } }, { "alice2", 1, { wrapB }, { NV(wrapB) } }}, 1, {{ 0 }} },
};
