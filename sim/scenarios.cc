#include "sim.h"
void scen_iothr(); void scen_writer(); void scen_reader(); void scen_filecrash(); void scen_getq(); void scen_queue(); void scen_pair(); void scen_capture(); void scen_replay(); void scen_dump(); void scen_startup(); void scen_giant(); void scen_stdio(); void scen_multi(); void scen_e2e();
const Scenario g_scenarios[] = {{"iothr", scen_iothr}, {"writer", scen_writer}, {"reader", scen_reader}, {"filecrash", scen_filecrash}, {"getq", scen_getq}, {"queue", scen_queue}, {"pair", scen_pair}, {"capture", scen_capture}, {"replay", scen_replay}, {"dump", scen_dump}, {"startup", scen_startup}, {"giant", scen_giant}, {"stdio", scen_stdio}, {"multi", scen_multi}, {"e2e", scen_e2e}};
const int g_nscenarios = sizeof g_scenarios / sizeof g_scenarios[0];
struct PropScen { const char *prop; const char *scen; int share; };
extern const PropScen g_prop_scens[] = {{"C01", "iothr", 7}, {"C01", "giant", 1}, {"C01", "multi", 1}, {"C02", "iothr", 11}, {"C02", "giant", 1}, {"C02", "multi", 1}, {"C03", "iothr", 11}, {"C03", "giant", 1}, {"C03", "multi", 1}, {"C04", "iothr", 1}, {"C05", "iothr", 1}, {"C06", "iothr", 1}, {"C07", "iothr", 1}, {"C08", "iothr", 4}, {"C08", "writer", 4}, {"C08", "giant", 1}, {"C08", "multi", 1}, {"C09", "writer", 1}, {"C10", "writer", 1}, {"C13", "writer", 3}, {"C13", "reader", 3}, {"C13", "iothr", 3}, {"C13", "stdio", 1}, {"C13", "multi", 1}, {"C11", "reader", 7}, {"C11", "stdio", 1}, {"C11", "multi", 1}, {"C12", "filecrash", 6}, {"C12", "writer", 2}, {"C12", "stdio", 1}, {"C14", "getq", 1}, {"C15", "queue", 1}, {"C16", "pair", 3}, {"C16", "reader", 1}, {"C16", "multi", 1}, {"C17", "capture", 1}, {"C18", "capture", 1}, {"C19", "capture", 1}, {"C20", "capture", 1}, {"C21", "capture", 1}, {"C22", "replay", 1}, {"C23", "dump", 1}, {"C26", "startup", 1}, {"C25", "iothr", 4}, {"C25", "giant", 1}, {"C25", "reader", 2}, {"C25", "capture", 2}, {"C27", "capture", 4}, {"C27", "replay", 1}, {"C27", "dump", 1}, {"C28", "multi", 1}, {"C29", "iothr", 4}, {"C29", "writer", 3}, {"C29", "multi", 2}, {"C29", "pair", 1}, {"C29", "reader", 1}, {"C30", "e2e", 1}};
extern const int g_nprop_scens = sizeof g_prop_scens / sizeof g_prop_scens[0];
const char *prop_rule(const string &) { return "configuration, thread schedule, peer behaviour and faults drawn from it"; }
