// Simulated network + HTTP server behind the libcurl easy interface (curl_stub.cpp replaces libcurl at link time).
#pragma once
#include "core/disk.h"
#include "core/doc.h"
#include "core/simfs.h"
namespace sim {
// what a stream was asked to use for every request
struct NetProps {
    std::map<int, std::string> str; std::map<int, long> num;      // keyed by CURLoption
};
struct Net {
    std::map<std::string, std::pair<bool, NetProps>> expect;  // per URL: what the streams on it were created with (chosen with the first one)
    int global_inits = 0; bool in_global_init = false;
    Bytes resource; uint64_t base = 0;                        // what the server holds (beginning at byte 'base' of a file of more than 4 GiB) ...
    std::map<std::string, std::shared_ptr<Disk>> urls;        // ... under further URLs: documents of the model
    bool armed = false;
    uint32_t rate = 0;               // per mille per request
    uint32_t kinds = 0;              // bit mask, see curl_stub.cpp
    uint64_t max_faults = ~0ull;
    bool ignore_range = false;       // this server does not implement range requests
    uint64_t requests = 0, faults = 0, benign = 0, shorts = 0;
    uint32_t chunk_mode = 0;         // 0: one chunk, 1: random chunks, 2: tiny chunks, 3: chunks of exactly 23 bytes
    int live_handles = 0, live_urls = 0;
    std::string bad;                 // first misuse of the libcurl interface
    std::string url_of(std::shared_ptr<Disk> d) { for (auto& u : urls) if (u.second == d) return u.first; std::string s = "http://sim/doc" + std::to_string(urls.size()); urls[s] = d; return s; }
};
extern Net N;
enum NetFault : uint32_t { kConnect = 1, kTimeout0 = 2, kReset = 4, kTimeoutMid = 8, kHttpError = 16, kIgnoreRange = 32, kShortBody = 64, kInit = 128, kSetopt = 256, kRedirect = 512 };
std::shared_ptr<libCZI::IStream> http_stream(const std::string& url, bool wide, bool props);
uint64_t& net_shorts();              // truncated but otherwise successful responses the calling thread met
}
