#include "../ref.h"
SCENARIO(smoke, "Z00", 0,1,0, 0,2,0, "smoke") {
    Service *t = unix_service("u1", "/run/u1"); t->fault = FX_SHORTR|FX_SHORTW;
    boot("server loopback=on\nserver port=7890\nserver logdir=\"/var/log\"\nconsole name=\"c1\" dev=\"unix:/run/u1\" log=\"c1.log\"\n");
    expect_alive();
    REQUIRE(t->conns.size() == 1, "no connect");
    Client a; REQUIRE(a.open("CONNECT", {"c1"}), "open failed: %s", esc(a.raw).c_str());
    t->cur()->send("hello"); settle();
    S d = strip_info(a.fresh());
    REQUIRE(d == "hello", "got %s", esc(d).c_str());
    REQUIRE(has(file_data("/var/log/c1.log"), "hello"), "log %s", esc(file_data("/var/log/c1.log")).c_str());
    a.type("abc"); settle(); REQUIRE(t->cur()->take() == "abc", "input");
    outcome(fmt("fds %d", D->nfds()));
    raise_sig(D, SIGTERM); settle(); REQUIRE(D->exited && D->code == 0, "no exit");
}
