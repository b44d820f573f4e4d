// Drives one simulated machine (Model 30 or Model 50) from outside: main storage, storage keys,
// the console switches and the microcycle entry point.
#pragma once
#include <stdint.h>
#include <string.h>
extern "C" {
#define wait sim_wait
#include "cpu.h"
#undef wait
#include "device.h"
#include "conf.h"
#include "event.h"
#include "xlat.h"
#include "logger.h"
#ifdef M2030
#include "model2030.h"
#else
#include "model2050.h"
#endif
extern uint64_t step_count;
extern char *line_ptr;
}

struct Machine {
    uint64_t cycles = 0;
#ifdef M2030
    static const char *name() { return "2030"; }
    static void setb(uint32_t a, uint8_t v) { M[a] = v | odd_parity[v]; }
    static uint8_t getb(uint32_t a) { return M[a] & 0xff; }
    static void setkey(int blk, uint8_t k) { cpu_2030.MP[0xe0 | blk] = k; }
    static uint8_t getkey(int blk) { return cpu_2030.MP[0xe0 | blk] & 15; }
    void cycle() { cycle_2030(); cycles++; }
    static bool parity_ok(uint32_t a) { uint32_t v = M[a]; return v < 0x200 && (uint32_t)((v & 0xff) | odd_parity[v & 0xff]) == v; }
#else
    static const char *name() { return "2050"; }
    static void setb(uint32_t a, uint8_t v) { int o = 8 * (3 - (a & 3)); M[a >> 2] = (M[a >> 2] & ~(0xffu << o)) | ((uint32_t)v << o); }
    static uint8_t getb(uint32_t a) { return M[a >> 2] >> (8 * (3 - (a & 3))); }
    static void setkey(int blk, uint8_t k) { cpu_2050.MP[blk] = k; }
    static uint8_t getkey(int blk) { return cpu_2050.MP[blk] & 15; }
    void cycle() { cycle_2050(); cycles++; }
    static bool parity_ok(uint32_t) { return true; }
#endif
    static void setw(uint32_t a, uint32_t v) { for (int i = 0; i < 4; i++) setb(a + i, v >> (24 - 8 * i)); }
    static uint32_t getw(uint32_t a) { uint32_t v = 0; for (int i = 0; i < 4; i++) v = (v << 8) | getb(a + i); return v; }
    void run(uint64_t n) { while (n--) cycle(); }

    static void switches() {
        RATE_SW = 1; PROC_SW = 1; CHK_SW = 2; MATCH_SW = 0;
        ADR_CMP = INST_REP = ROS_CMP = ROS_REP = SAR_CMP = FORC_IND = FLT_MODE = CHN_MODE = 0;
        SEL_SW = 0; SEL_ENTER = 0; STORE = DISPLAY = START = STOP = SET_IC = LOAD = INTR = ROAR_RST = CHECK_RST = 0;
        timer_event = 0;
#ifdef M2030
        INT_TMR = 0;        // 2030: interval timer switch off
#else
        INT_TMR = 1;        // 2050: interval timer disable switch on
#endif
    }
    // Define the CPU with the storage size named by a model letter.
    static int configure(char letter) {
        static char empty[2] = ""; struct _option o; memset(&o, 0, sizeof o);
        line_ptr = empty; o.model = letter; strcpy(o.opt, name());
#ifdef M2030
        return model2030_create(&o);
#else
        return model2050_create(&o);
#endif
    }
    // System reset, then let the machine settle in the stopped state.
    void reset() {
        switches();
        SYS_RST = 1;
#ifdef M2030
        for (int i = 0; i < 8000; i++) { cycle(); }
#else
        for (int i = 0; i < 8000; i++) { cycle(); }
#endif
    }
    // Start at location 0 (where system reset leaves the instruction counter): the first
    // instruction there loads the PSW stored at 8.
    void start_psw(uint32_t hi, uint32_t lo) {
        setw(0, 0x82000008); setw(4, 0); setw(8, hi); setw(12, lo);
        START = 1; cycle(); cycle(); START = 0;
    }
};
