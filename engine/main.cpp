// linked first into every harness executable
extern "C" void mc_boot();
extern "C" int mc_engine_main(int, char**);
struct mc_boot_t { mc_boot_t() { mc_boot(); } };
__attribute__((init_priority(101))) static mc_boot_t boot;
int main(int argc, char** argv) { return mc_engine_main(argc, argv); }
