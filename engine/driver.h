#pragma once
#include "interp.h"
#include <chrono>

struct Config
{
	std::map<std::string, std::string> kv;
	bool has(const std::string &k) const { return kv.count(k) > 0; }
	std::string str(const std::string &k, const std::string &d = "") const { auto i = kv.find(k); return i == kv.end() ? d : i->second; }
	long num(const std::string &k, long d = 0) const { auto i = kv.find(k); return i == kv.end() ? d : std::stol(i->second, nullptr, 0); }
};
struct Finding { std::string prop, kind, msg, where; };
struct Report
{
	std::vector<Finding> findings;            // violations, per clause
	std::vector<std::string> incomplete;      // what could not be decided
	std::map<std::string, uint64_t> count;    // obligations / coverage counters
	std::vector<std::string> notes;
	std::set<std::string> functions, externs;
	void add(const std::string &prop, const std::string &kind, const std::string &msg, const std::string &where = "")
	{
		for (auto &f : findings) if (f.prop == prop && f.kind == kind && f.where == where && (where.size() || f.msg == msg)) return;
		if (findings.size() < 400) findings.push_back({prop, kind, msg, where});
	}
	std::string json() const;
};
void runAnalyses(const llvm::Module &M, const Config &cfg, Report &rep);
