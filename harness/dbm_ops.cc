// Every sequence of NOPS operations over symbolic keys and values against a map.
#include "ops.h"
extern "C" void symx_main() {
  d = make();
  OK(open_db(d.get()), "opening a new database succeeds");
  CHECK(d->IsOpen() && d->IsWritable() && d->IsHealthy(), "a new database is open, writable and healthy");
  CHECK(d->IsOrdered() == ORDERED, "IsOrdered");
  prefill(NPRE);
  run_ops(NOPS, OPS);
#ifdef PROBE
  op_get();
#endif
  audit(d.get(), m);
#ifndef NOITER
  audit_iter(d.get(), m);
#endif
#ifdef REBUILD_END
  OK(d->Rebuild(), "Rebuild succeeds"); audit(d.get(), m);
#endif
#ifdef REOPEN_END
  OK(d->Close(), "Close succeeds");
  OK(open_db(d.get(), false, OPENOPT & ~File::OPEN_TRUNCATE), "reopening read-only succeeds");
  CHECK(d->IsHealthy(), "a cleanly closed database is healthy");
  audit(d.get(), m); audit_iter(d.get(), m);
#endif
  symx_observe_int("count", m.r.size());
  OK(d->Close(), "Close succeeds");
  CHECK(rt_open_fds() == 0, "Close releases the file descriptors");
  CHECK(rt_open_maps() == 0, "Close releases the mappings");
  symx_reach("end");
}
