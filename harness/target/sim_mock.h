#pragma once
extern "C" {
extern long sim_len, sim_vtype;
extern unsigned long sim_hwcap, sim_hwcap2;
extern char sim_sysctl[8][48];
extern int sim_nsysctl;
}
