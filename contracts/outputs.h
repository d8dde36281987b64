// Outputs that cannot be written (P35): a file in a directory that does not exist cannot
// be created, one on a full device takes nothing once it leaves the buffer of its stream,
// one on a device that fills up takes a part of it.
#pragma once
#include <cstdlib>
#include <stdexcept>
#include <fstream>
// does the call end with the exception of a file error
template<class F> static bool refused(const F& f) { try { f(); return false; } catch (std::ios_base::failure& e) { return true; } }
// the exit status of a tool, which may leave by exit()
struct left { int code; };
template<class F> static int status(const F& f) { try { return f(); } catch (left& l) { return l.code; } }
#ifdef VC_NATIVE
#include <sys/resource.h>
#include <csignal>
struct device { rlimit was; explicit device(long room) { signal(SIGXFSZ, SIG_IGN); getrlimit(RLIMIT_FSIZE, &was); rlimit r = was; r.rlim_cur = room; setrlimit(RLIMIT_FSIZE, &r); } ~device() { setrlimit(RLIMIT_FSIZE, &was); } };
static long bytes(const char* f) { std::ifstream i(f, std::ios::binary | std::ios::ate); return i ? (long)i.tellg() : -1; }
#else
extern "C" { void vc_room(long characters); bool vc_lost(const char* file); } // the space of the device (none: -1); does the file have more
#endif
// run writes the file it is told, says whether it ended as a success, and does the same every time
template<class F> static void outputs(const F& run) {
  static const char* const SINK[3] = {"nodir/o", "/dev/full", "o"}; static const int ROOM[6] = {3, 20, 60, 120, 250, 500};
  const int k = vc_enum_in("sink", 0, 3); if (k < 3) { vc_check(run(SINK[k]) == (k == 2), "success means that the output was written"); std::remove("o"); return; }
  const int r = vc_enum_in("room", 0, 5);
#ifdef VC_NATIVE
  if (!run("o")) { vc_check(false, "success means that the output was written"); return; }
  const long n = bytes("o"); if (n < 1) return; bool ok; { device d(n * (r + 1) / 7); ok = run("o"); } std::remove("o"); vc_check(!ok, "success means that the whole output was written");
#else
  vc_room(ROOM[r]); const bool ok = run("o"), lost = vc_lost("o"); vc_room(-1); vc_check(ok == !lost, "success means that the whole output was written");
#endif
}
