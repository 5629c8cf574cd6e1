#!/usr/bin/env python3
"""newseed.py ID PROPERTY NEEDS WHAT FILE  (stdin: OLD\\n====\\nNEW\\n#### ... then @@@@ demo C++ body): writes seeded/ID from a textual replacement in /repo (restored afterwards)."""
import sys, os, json, subprocess
sid, prop, needs, what = sys.argv[1:5]
txt = sys.stdin.read(); edits, demo = txt.split("@@@@\n")
R = "/repo/"
assert not subprocess.run(["git", "-C", R, "status", "--porcelain"], capture_output=True, text=True).stdout
for e in edits.split("####\n"):
    head, rest = e.split("\n", 1); old, new = rest.split("====\n")
    p = R + head.strip(); s = open(p).read()
    old = old.rstrip("\n"); new = new.rstrip("\n")
    if s.count(old) != 1:
        subprocess.run(["git", "-C", R, "checkout", "-q", "--", "."]); sys.exit("%d matches of %r in %s" % (s.count(old), old, head))
    open(p, "w").write(s.replace(old, new))
d = "/verif/seeded/%s/" % sid; os.makedirs(d, exist_ok=True)
diff = subprocess.run(["git", "-C", R, "diff"], capture_output=True, text=True).stdout
subprocess.run(["git", "-C", R, "checkout", "-q", "--", "."])
open(d + "patch.diff", "w").write(diff)
json.dump({"property": prop, "needs": needs, "what_it_breaks": what}, open(d + "meta.json", "w"), indent=1)
inc = """#include "tkrzw_cmd_util.h"
#include "tkrzw_dbm.h"
#include "tkrzw_dbm_async.h"
#include "tkrzw_dbm_baby.h"
#include "tkrzw_dbm_cache.h"
#include "tkrzw_dbm_common_impl.h"
#include "tkrzw_dbm_hash.h"
#include "tkrzw_dbm_poly.h"
#include "tkrzw_dbm_shard.h"
#include "tkrzw_dbm_skip.h"
#include "tkrzw_dbm_std.h"
#include "tkrzw_dbm_tiny.h"
#include "tkrzw_dbm_tree.h"
#include "tkrzw_dbm_ulog.h"
#include "tkrzw_containers.h"
#include "tkrzw_compress.h"
#include "tkrzw_file.h"
#include "tkrzw_file_mmap.h"
#include "tkrzw_file_pos.h"
#include "tkrzw_file_std.h"
#include "tkrzw_file_util.h"
#include "tkrzw_index.h"
#include "tkrzw_langc.h"
#include "tkrzw_lib_common.h"
#include "tkrzw_message_queue.h"
#include "tkrzw_str_util.h"
#include "tkrzw_thread_util.h"
#include "tkrzw_time_util.h"
#include "tkrzw_key_comparators.h"
#include "tkrzw_hash_util.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <atomic>
#include <thread>
#include <unistd.h>
using namespace tkrzw;
#define REQUIRE(x) do { if (!(x)) { std::fprintf(stderr, "line %d: %s does not hold\\n", __LINE__, #x); std::_Exit(1); } } while (0)
"""
if "int main" not in demo:
    demo = "int main() {\n" + demo + "  return 0;\n}\n"
open(d + "demo.cc", "w").write(inc + demo)
open(d + "demo.sh", "w").write("""#!/bin/bash
# Builds demo.cc against the built library and runs it in a scratch directory.
set -u
here=$(cd "$(dirname "$0")" && pwd); repo=$PWD; t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
g++ -std=c++17 -O1 -I"$repo" "$here/demo.cc" "$repo/_build/libtkrzw.a" -lz -lzstd -llz4 -llzma -lpthread -o "$t/demo" || exit 3
cd "$t" && timeout 120 ./demo "$t"
""")
