#include "scen.h"
namespace sim {
const std::vector<PropDef>& prop_defs() {
  static const auto* v = new std::vector<PropDef>{
    {"E01", {{"wfile", 99}, {"vast", 1}}, 45000, 3000000},
    {"E02", {{"durab", 1}}, 70000, 3000000},
    {"E03", {{"wholefile", 199}, {"vast", 1}}, 70000, 3000000},
    {"E04", {{"seqread", 99}, {"vast", 1}}, 45000, 3000000},
    {"E05", {{"raread", 199}, {"vast", 1}}, 180000, 4000000},
    {"E06", {{"errs", 1}}, 180000, 4000000},
    {"E07", {{"errs", 1}, {"raread", 1}}, 180000, 4000000},
    {"E08", {{"nsops", 2}, {"errs", 1}}, 180000, 4000000},
    {"E09", {{"lock", 1}}, 200000, 4000000},
    {"E10", {{"bg", 1}}, 200000, 4000000},
    {"E11", {{"threads", 1}}, 200000, 4000000},
    {"E12", {{"logger", 1}}, 100000, 4000000},
    {"E13", {{"clock", 1}}, 200000, 4000000},
    {"E14", {{"defenv", 1}}, 120000, 4000000},
    {"E15", {{"inherit", 1}}, 180000, 4000000},
    {"M01", {{"memenv", 1}}, 150000, 4000000},
    {"M02", {{"memlife", 1}}, 140000, 4000000},
    {"M03", {{"memiso", 1}}, 100000, 4000000},
    {"W01", {{"wrap", 1}}, 120000, 4000000},
    {"C01", {{"cache", 1}}, 110000, 4000000},
    {"C02", {{"cache", 1}}, 110000, 4000000},
    {"C03", {{"cache", 1}}, 110000, 4000000},
    {"C04", {{"cache", 1}}, 150000, 4000000},
    {"S01", {{"skip", 1}}, 100000, 4000000},
    {"S02", {{"skip", 1}}, 120000, 4000000},
    {"A01", {{"arena", 1}}, 40000, 4000000},
    {"T01", {{"status", 1}}, 150000, 4000000},
    {"U01", {{"helpers", 1}}, 120000, 4000000},
    {"P01", {{"port", 1}}, 180000, 4000000},
    {"D01", {{"records", 1}}, 120000, 4000000},
  };
  return *v;
}
// Some workloads decide several properties. A violation of one of them does not count against the others;
// memory errors, data races, deadlocks and failed assertions count everywhere.
static const char* const kResource[] = {"descriptor-leak", "mapping-leak", "fd-not-open", "double-munmap", "access-after-munmap", "slot-leak", "too-many-mappings", "too-many-descriptors", "use-after-close", "memory-leak", nullptr};
static const char* const kReport[] = {"unreported-error", "spurious-error", "wrong-class", "unnamed-error", "non-null-result", "null-result", nullptr};
static const char* const kEffect[] = {"false-success", "wrong-content", "wrong-result", "other-name-changed", "too-long", "lock-held-twice", "no-lock", "lock-not-released", nullptr};
static const char* const kData[] = {"outside-file", "wrong-data", "short-result", "result-changed", "bad-result", nullptr};
static const char* const kDeleter[] = {"wrong-deleter-call", "deleted-twice", "deleted-while-in-use", "never-deleted", "memory-leak", nullptr};
static const char* const kLookup[] = {"wrong-value", "wrong-lookup", "not-linearizable", nullptr};
static const char* const kLru[] = {"not-lru", "wrong-charge", nullptr};
static bool in(const char* const* l, const char* c) { for (; *l; l++) if (!strcmp(*l, c)) return true; return false; }
bool class_counts(const std::string& p, const char* c) {
  if (p == "E07") return !in(kReport, c) && !in(kEffect, c) && !in(kData, c);
  if (p == "C01") return (!in(kDeleter, c) || !strcmp(c, "deleted-while-in-use")) && !in(kLru, c) && strcmp(c, "duplicate-id");
  if (p == "C02") return !in(kDeleter, c) && !in(kLookup, c) && strcmp(c, "duplicate-id");
  if (p == "C03") return !in(kLookup, c) && !in(kLru, c) && strcmp(c, "duplicate-id");
  if (p == "C04") return !in(kLookup, c) && !in(kLru, c) && !in(kDeleter, c);
  if (p == "M01") return strcmp(c, "memory-leak") != 0;
  if (p == "M02") return !in(kReport, c) && !in(kEffect, c) && !in(kData, c);
  if (p == "E06") return !in(kResource, c) && (!in(kEffect, c) || !strcmp(c, "false-success"));
  if (p == "E08") return !in(kResource, c) && !in(kReport, c);
  if (p == "E01" || p == "E02" || p == "E04" || p == "E05" || p == "E09") return !in(kResource, c);
  return true;
}
}
