#define CURL_DISABLE_TYPECHECK
#define CURL_NO_OLDIES
#include "fault/net.h"
#include <curl/curl.h>
#undef curl_easy_setopt
#undef curl_easy_getinfo
#include <cstdarg>
#include <cstdlib>
#include "libCZI_StreamsLib.h"
#ifdef SIM_SCHED
#include "sched/tsrt.h"
#define NET_POINT() sim::yield_point()
typedef sim::Quiet NetQuiet;
struct NetLoud { int q; NetLoud() : q(sim::tl_quiet) { sim::tl_quiet = 0; } ~NetLoud() { sim::tl_quiet = q; } };
#else
#define NET_POINT() ((void)0)
typedef sim::Exempt NetQuiet;
struct NetLoud { int q; NetLoud() : q(sim::g_exempt) { sim::g_exempt = 0; } ~NetLoud() { sim::g_exempt = q; } };
#endif
using namespace sim;
namespace sim {
Net N;
uint64_t& net_shorts() { static thread_local uint64_t n = 0; return n; }
std::shared_ptr<libCZI::IStream> http_stream(const std::string& url, bool wide, bool props)
{
    using F = libCZI::StreamsFactory; F::CreateStreamInfo ci; ci.class_name = "curl_http_inputstream";
    if (!N.expect.count(url)) {
        IoQuiet q; auto& e = N.expect[url]; e.first = props; auto& P = e.second;
        auto str = [&](int o, const char* stem, uint32_t n, uint32_t d) { if (C.flip(n, d)) P.str[o] = stem + std::string(C.draw(60), 'q') + std::to_string(C.draw(1000)); };
        if (props) {
            str(CURLOPT_USERAGENT, "sim", 3, 4); str(CURLOPT_PROXY, "proxy.sim:", 1, 4); str(CURLOPT_XOAUTH2_BEARER, "token-", 1, 3); str(CURLOPT_COOKIE, "session=", 1, 3); str(CURLOPT_CAINFO, "/ca/", 1, 4); str(CURLOPT_CAINFO_BLOB, "-----BEGIN CERTIFICATE-----\n", 1, 3);
            if (C.flip(3, 4)) P.num[CURLOPT_TIMEOUT] = 1 + C.draw(100); if (C.flip(3, 4)) P.num[CURLOPT_CONNECTTIMEOUT] = 1 + C.draw(100); if (C.flip(1, 2)) P.num[CURLOPT_SSL_VERIFYPEER] = C.draw(2); if (C.flip(1, 2)) P.num[CURLOPT_SSL_VERIFYHOST] = C.draw(2);
            if (C.flip(1, 2)) { P.num[CURLOPT_FOLLOWLOCATION] = C.draw(4) != 0; if (C.flip(1, 2)) P.num[CURLOPT_MAXREDIRS] = C.draw(5); }
        }
    }
    { const auto& P = N.expect[url].second; using SP = F::StreamProperties; static const std::pair<int, int> key[] = {{CURLOPT_USERAGENT, SP::kCurlHttp_UserAgent}, {CURLOPT_PROXY, SP::kCurlHttp_Proxy}, {CURLOPT_XOAUTH2_BEARER, SP::kCurlHttp_Xoauth2Bearer}, {CURLOPT_COOKIE, SP::kCurlHttp_Cookie}, {CURLOPT_CAINFO, SP::kCurlHttp_CaInfo}, {CURLOPT_CAINFO_BLOB, SP::kCurlHttp_CaInfoBlob}, {CURLOPT_TIMEOUT, SP::kCurlHttp_Timeout}, {CURLOPT_CONNECTTIMEOUT, SP::kCurlHttp_ConnectTimeout}, {CURLOPT_SSL_VERIFYPEER, SP::kCurlHttp_SslVerifyPeer}, {CURLOPT_SSL_VERIFYHOST, SP::kCurlHttp_SslVerifyHost}, {CURLOPT_FOLLOWLOCATION, SP::kCurlHttp_FollowLocation}, {CURLOPT_MAXREDIRS, SP::kCurlHttp_MaxRedirs}};
      for (auto& k : key) { auto t = P.str.find(k.first); if (t != P.str.end()) ci.property_bag[k.second] = F::Property(t->second); auto n = P.num.find(k.first); if (n != P.num.end()) ci.property_bag[k.second] = k.first == CURLOPT_SSL_VERIFYPEER || k.first == CURLOPT_SSL_VERIFYHOST || k.first == CURLOPT_FOLLOWLOCATION ? F::Property(n->second != 0) : F::Property((std::int32_t)n->second); } }
    auto s = wide ? F::CreateStream(ci, std::wstring(url.begin(), url.end())) : F::CreateStream(ci, url);
    if (!s) fail("no-stream", "the stream factory does not create an HTTP stream"); return s;
}
}

namespace {
struct Url { std::string s; };
struct Easy {
    std::string url; Url* u = nullptr; bool has_range = false; std::string range; bool failonerror = false; bool follow = false; long code = 0; bool busy = false;
    std::map<int, std::string> str; std::map<int, long> num; const void* blob = nullptr; size_t blob_len = 0;    // options as given (strings are copied, a blob only on demand)
    curl_write_callback wf = nullptr; void* wd = nullptr; curl_write_callback hf = nullptr; void* hd = nullptr;
};
std::set<void*> g_easy, g_url;     // live handles
void misuse(const char* m) { if (N.bad.empty()) N.bad = m; ev("NET misuse: %s", m); }
Easy* easy(CURL* h) { if (!g_easy.count(h)) { misuse("use of a curl handle that does not exist (any more)"); return nullptr; } auto e = (Easy*)h; if (e->busy) { misuse("a curl handle is used while a transfer is running on it"); return nullptr; } return e; }
Disk* doc_of(Easy* e) { if (!e->u) return nullptr; auto f = N.urls.find(e->u->s); return f == N.urls.end() ? nullptr : f->second.get(); }
bool roll(uint32_t kind, Disk* d) { return N.armed && (d ? d->f.armed : N.urls.empty()) && (N.kinds & kind) && N.faults < N.max_faults && C.flip(N.rate, 1000); }
void hit(const char* kind, Disk* d, int k) { ++N.faults; ++fs_hard(); if (d) ++d->faults; count(kind); sched(k); }
// returns CURLE_OK or CURLE_WRITE_ERROR
CURLcode deliver_body(Easy* e, const uint8_t* p, size_t n)
{
    size_t o = 0; Bytes body(p, p + n);
    while (o < n) {
        size_t c = n - o;
        switch (N.chunk_mode) { case 1: c = 1 + C.draw((uint32_t)std::min<size_t>(c, 1u << 16)); break; case 2: c = std::min<size_t>(c, 1 + C.draw(48)); break; case 3: c = std::min<size_t>(c, 23); break; default: c = std::min<size_t>(c, 16384); break; }
        Bytes tmp(body.begin() + o, body.begin() + o + c);    // exact-size copy: an over-read of the callback is visible
        tick(); size_t r = c;
        if (e->wf) { NetLoud l; NET_POINT(); r = e->wf((char*)tmp.data(), 1, c, e->wd); NET_POINT(); }
        if (r != c) { ev("NET   write callback refused %zu bytes", c); return CURLE_WRITE_ERROR; }
        o += c;
    }
    return CURLE_OK;
}
void header(Easy* e, const std::string& s) { if (e->hf) { NetLoud l; e->hf((char*)s.data(), 1, s.size(), e->hd); } }
CURLcode perform(Easy* e)
{
    ++N.requests; tick(); e->code = 0; Disk* d = doc_of(e); const Bytes& res = d ? d->data : N.resource; if (d) ++d->reads;
    if (e->u) {   // the server and the path to it expect what the stream was created with
        auto x = N.expect.find(e->u->s); if (x != N.expect.end()) {
            auto str = e->str; if (e->blob) str[CURLOPT_CAINFO_BLOB] = std::string((const char*)e->blob, e->blob_len);
            auto num = e->num; for (int o : {CURLOPT_SSL_VERIFYPEER, CURLOPT_SSL_VERIFYHOST}) if (num.count(o) && num[o]) num[o] = 1;
            static const NetProps dflt = [] { NetProps p; p.num = {{CURLOPT_TIMEOUT, 0}, {CURLOPT_CONNECTTIMEOUT, 300}, {CURLOPT_SSL_VERIFYPEER, 1}, {CURLOPT_SSL_VERIFYHOST, 1}, {CURLOPT_FOLLOWLOCATION, 0}, {CURLOPT_MAXREDIRS, 30}}; return p; }();
            static char msg[400];
            for (int o : {CURLOPT_USERAGENT, CURLOPT_PROXY, CURLOPT_XOAUTH2_BEARER, CURLOPT_COOKIE, CURLOPT_CAINFO, CURLOPT_CAINFO_BLOB}) { auto w = x->second.second.str.find(o); auto g = str.find(o); if (w == x->second.second.str.end()) continue; if (g == str.end() || g->second != w->second) { snprintf(msg, sizeof(msg), "a request is made with libcurl-option %d = '%s' whereas '%s' was asked for", o, g == str.end() ? "" : g->second.c_str(), w->second.c_str()); misuse(msg); } }
            for (auto& w : x->second.second.num) { auto g = num.find(w.first); long v = g == num.end() ? dflt.num.at(w.first) : g->second; if (v != w.second) { snprintf(msg, sizeof(msg), "a request is made with libcurl-option %d = %ld whereas %ld was asked for", w.first, v, w.second); misuse(msg); } }
        }
    }
    unsigned long long a = 0, b = ~0ull; bool full = !e->has_range;
    if (e->has_range) { char* q; a = strtoull(e->range.c_str(), &q, 10); if (*q == '-' && q[1]) b = strtoull(q + 1, nullptr, 10); }
    ev("NET GET range=%s", e->has_range ? e->range.c_str() : "(none)"); sched(N.requests);
    if (e->has_range && b < a) { misuse("a range whose end lies before its start"); }
    if (N.base && !d && e->has_range) { if (a < N.base || b < N.base) { misuse("a range of the file that nobody asked for"); return CURLE_RECV_ERROR; } a -= N.base; if (b != ~0ull) b -= N.base; }
    if (roll(kConnect, d)) { hit("fault.net_connect_refused", d, 1); ev("NET   refused"); return CURLE_COULDNT_CONNECT; }
    if (roll(kTimeout0, d)) { hit("fault.net_timeout", d, 2); ev("NET   timeout"); tick(30000); return CURLE_OPERATION_TIMEDOUT; }
    bool err = roll(kHttpError, d), redir = !err && !e->follow && roll(kRedirect, d);
    if (err || redir) {
        static const long codes[] = {404, 500, 503, 403, 429, 302, 307}; e->code = codes[redir ? 5 + C.draw(2) : C.draw(5)]; hit(err ? "fault.net_http_error" : "fault.net_redirect", d, 3); ev("NET   http %ld", e->code);
        if (e->failonerror && e->code >= 400) return CURLE_HTTP_RETURNED_ERROR;
        std::string body = "<html><body>error</body></html>"; body.resize(C.len(400) + 1, 'x'); header(e, "HTTP/1.1 " + std::to_string(e->code) + " error\r\n");
        return deliver_body(e, (const uint8_t*)body.data(), body.size());
    }
    if (e->follow && roll(kRedirect, d)) {
        long hops = 1 + C.draw(5), lim = e->num.count(CURLOPT_MAXREDIRS) ? e->num[CURLOPT_MAXREDIRS] : 30; ev("NET   %ld redirections, at most %ld allowed", hops, lim);
        if (lim >= 0 && hops > lim) { e->code = 302; hit("fault.net_too_many_redirects", d, 11); return CURLE_TOO_MANY_REDIRECTS; }
        count("net.redirections_followed");
    }
    bool ignored = N.ignore_range && !full;
    if (!ignored && roll(kIgnoreRange, d)) ignored = true;
    if (ignored) { hit("fault.net_range_ignored", d, 4); full = true; }
    size_t from, to;     // [from,to)
    if (full) { from = 0; to = res.size(); e->code = 200; }
    else if (a >= res.size()) {   // range not satisfiable
        e->code = 416; ev("NET   416"); count("net.416"); if (e->failonerror) return CURLE_HTTP_RETURNED_ERROR;
        std::string body = "range not satisfiable"; header(e, "HTTP/1.1 416 Range Not Satisfiable\r\n"); return deliver_body(e, (const uint8_t*)body.data(), body.size());
    }
    else { from = a; to = b >= res.size() - 1 ? res.size() : b + 1; e->code = 206; }
    header(e, "HTTP/1.1 " + std::to_string(e->code) + " OK\r\n");
    size_t n = to > from ? to - from : 0;
    if (n && roll(kReset, d)) { size_t k = C.draw((uint32_t)n); hit("fault.net_reset", d, 5); ev("NET   reset after %zu", k); auto r = deliver_body(e, res.data() + from, k); return r != CURLE_OK ? r : (C.flip(1, 2) ? CURLE_PARTIAL_FILE : CURLE_RECV_ERROR); }
    if (n && roll(kTimeoutMid, d)) { size_t k = C.draw((uint32_t)n); hit("fault.net_stall", d, 6); ev("NET   stall after %zu", k); tick(30000); auto r = deliver_body(e, res.data() + from, k); return r != CURLE_OK ? r : CURLE_OPERATION_TIMEDOUT; }
    if (n > 1 && !full && roll(kShortBody, d)) { n = 1 + C.draw((uint32_t)n - 1); ++N.faults; ++N.shorts; ++net_shorts(); if (d) ++d->faults; count("fault.net_short_206"); sched(7); ev("NET   206 short %zu", n); }
    auto r = deliver_body(e, res.data() + from, n);
    ev("NET   %ld %zu..%zu -> %d", e->code, from, from + n, (int)r);
    return r;
}
}
extern "C" {
CURLcode curl_global_init(long) { NET_POINT(); { NetQuiet x; if (N.in_global_init) misuse("curl_global_init is called by two threads at once"); N.in_global_init = true; } NET_POINT(); { NetQuiet x; N.in_global_init = false; ++N.global_inits; } NET_POINT(); return CURLE_OK; }
curl_version_info_data* curl_version_info(CURLversion)
{
    static const char* feats[] = {nullptr}; static curl_version_info_data d = [] { curl_version_info_data v; memset(&v, 0, sizeof(v)); v.age = CURLVERSION_ELEVENTH; v.version = "sim"; v.feature_names = feats; return v; }(); return &d;
}
CURL* curl_easy_init(void) { NetQuiet x; if (roll(kInit, nullptr)) { hit("fault.net_init", nullptr, 8); return nullptr; } ++N.live_handles; auto e = new Easy; g_easy.insert(e); return (CURL*)e; }
void curl_easy_cleanup(CURL* h) { NET_POINT(); NetQuiet x; if (!h) return; if (!g_easy.erase(h)) { misuse("a curl handle is released twice"); return; } if (((Easy*)h)->busy) misuse("a curl handle is released while a transfer is running on it"); --N.live_handles; delete (Easy*)h; }
CURLU* curl_url(void) { NetQuiet x; if (roll(kInit, nullptr)) { hit("fault.net_init", nullptr, 9); return nullptr; } ++N.live_urls; auto u = new Url; g_url.insert(u); return (CURLU*)u; }
void curl_url_cleanup(CURLU* u) { NetQuiet x; if (!u) return; if (!g_url.erase(u)) { misuse("a curl URL handle is released twice"); return; } --N.live_urls; delete (Url*)u; }
CURLUcode curl_url_set(CURLU* u, CURLUPart, const char* p, unsigned int) { NetQuiet x; if (!p || strncmp(p, "http", 4)) return CURLUE_BAD_SCHEME; ((Url*)u)->s = p; return CURLUE_OK; }
const char* curl_url_strerror(CURLUcode) { return "simulated url error"; }
const char* curl_easy_strerror(CURLcode) { return "simulated error"; }
CURLcode curl_easy_setopt(CURL* h, CURLoption o, ...)
{
    NET_POINT(); CURLcode r = CURLE_OK;
    {
        NetQuiet x; auto e = easy(h); if (!e) return CURLE_BAD_FUNCTION_ARGUMENT; va_list ap; va_start(ap, o);
        if (roll(kSetopt, doc_of(e))) { hit("fault.net_setopt", doc_of(e), 10); r = CURLE_OUT_OF_MEMORY; }
        else switch (o) {
        case CURLOPT_CURLU: e->u = va_arg(ap, Url*); break;
        case CURLOPT_URL: e->url = va_arg(ap, const char*); break;
        case CURLOPT_RANGE: { const char* s = va_arg(ap, const char*); e->has_range = s != nullptr; e->range = s ? s : ""; break; }
        case CURLOPT_WRITEFUNCTION: e->wf = va_arg(ap, curl_write_callback); break;
        case CURLOPT_WRITEDATA: e->wd = va_arg(ap, void*); break;
        case CURLOPT_HEADERFUNCTION: e->hf = va_arg(ap, curl_write_callback); break;
        case CURLOPT_HEADERDATA: e->hd = va_arg(ap, void*); break;
        case CURLOPT_FAILONERROR: e->failonerror = va_arg(ap, long) != 0; break;
        case CURLOPT_FOLLOWLOCATION: e->follow = (e->num[o] = va_arg(ap, long)) != 0; break;
        case CURLOPT_TIMEOUT: case CURLOPT_CONNECTTIMEOUT: case CURLOPT_SSL_VERIFYPEER: case CURLOPT_SSL_VERIFYHOST: e->num[o] = va_arg(ap, long); break;
        case CURLOPT_MAXREDIRS: e->num[o] = (int)va_arg(ap, long); break;
        case CURLOPT_USERAGENT: case CURLOPT_PROXY: case CURLOPT_XOAUTH2_BEARER: case CURLOPT_COOKIE: case CURLOPT_CAINFO: { const char* s = va_arg(ap, const char*); if (s) e->str[o] = s; else e->str.erase(o); break; }
        case CURLOPT_CAINFO_BLOB: { auto b = va_arg(ap, curl_blob*); if (!b) { e->blob = nullptr; e->str.erase(o); } else if (b->flags & CURL_BLOB_COPY) e->str[o] = std::string((const char*)b->data, b->len); else { e->blob = b->data; e->blob_len = b->len; } break; }
        default: break;
        }
        va_end(ap);
    }
    NET_POINT(); return r;
}
CURLcode curl_easy_getinfo(CURL* h, CURLINFO i, ...)
{
    NetQuiet x; auto e = easy(h); if (!e) return CURLE_BAD_FUNCTION_ARGUMENT; va_list ap; va_start(ap, i); CURLcode r = CURLE_OK;
    if (i == CURLINFO_RESPONSE_CODE || i == CURLINFO_HTTP_CONNECTCODE) *va_arg(ap, long*) = e->code; else r = CURLE_UNKNOWN_OPTION;
    va_end(ap); return r;
}
CURLcode curl_easy_perform(CURL* h)
{
    NET_POINT(); CURLcode r; { NetQuiet x; auto e = easy(h); if (!e) return CURLE_BAD_FUNCTION_ARGUMENT; if (e->u && !g_url.count(e->u)) { misuse("the URL handle was released while the curl handle uses it"); return CURLE_URL_MALFORMAT; } e->busy = true; r = perform(e); e->busy = false; } NET_POINT(); return r;
}
}
