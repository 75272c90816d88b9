#include "kit.hpp"
#include <csignal>
#include <unistd.h>
const Bytes FEE_TREE = unhex(
    "1005040004000e36100204a00b08cd0279be667ef9dcbbac55a06295ce870b07029bfcdb2dce28d959f2815b16f81798ea02d192a39a8cc7a701730073011001"
    "020402d19683030193a38cc7b2a57300000193c2b2a57301007473027303830108cdeeac93b1a57304");
void demo();
static void crashed(int) {
    static const char m[] = "BROKEN: the application crashed\n";
    if (write(1, m, sizeof m - 1)) {}
    _exit(1);
}
int main(int argc, char **argv) {
    ec_init();
    static uint8_t alt[65536];
    stack_t ss{};
    ss.ss_sp = alt;
    ss.ss_size = sizeof alt;
    sigaltstack(&ss, nullptr);
    struct sigaction sa{};
    sa.sa_handler = crashed;
    sa.sa_flags = SA_ONSTACK;
    for (int s : {SIGSEGV, SIGBUS, SIGILL, SIGFPE, SIGABRT, SIGALRM}) sigaction(s, &sa, nullptr);
    alarm(60);
    if (argc < 2 || !g_dev.load(0, argv[1])) return 2;
    boot();
    demo();
    printf(g_bad ? "the property is broken\n" : "the property held\n");
    return g_bad;
}
