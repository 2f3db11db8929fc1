// In-memory stand-in for minio-cpp, used only to BUILD AND RUN the otherwise unbuildable part of
// /repo when triaging findings and writing demonstrations. No check uses it.
#pragma once
#include <cstdlib>
#include <functional>
#include <istream>
#include <iterator>
#include <list>
#include <map>
#include <memory>
#include <mutex>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <string_view>
#include <vector>
#include <atomic>

namespace minio {
namespace fake {
struct State
{
    std::mutex m;
    std::map<std::string, std::map<std::string, std::string>> buckets;
    std::map<std::string, std::map<unsigned, std::string>> uploads;
    std::vector<std::string> log;
    unsigned long next = 1;
    // returns true to make the operation fail; may throw
    std::function<bool(const std::string& op, const std::string& object)> fault;
    State()
    {
        const char* b = std::getenv("ZARR_S3_BUCKET_NAME");
        buckets[b ? b : "bucket"];
    }
};
inline State&
state()
{
    static State s;
    return s;
}
inline bool
failing(const std::string& op, const std::string& object)
{
    std::function<bool(const std::string&, const std::string&)> f;
    {
        std::lock_guard l(state().m);
        state().log.push_back(op + " " + object);
        f = state().fault;
    }
    return f && f(op, object);
}
}
namespace error {
class Error
{
  public:
    std::string msg;
    std::string String() const { return msg; }
    operator bool() const { return !msg.empty(); }
};
}
namespace creds {
class Provider
{
  public:
    virtual ~Provider() = default;
};
class StaticProvider : public Provider
{
  public:
    StaticProvider(std::string, std::string, std::string = "") {}
};
}
namespace http {
struct DataFunctionArgs
{
    std::string datachunk;
    void* userdata = nullptr;
};
using DataFunction = std::function<bool(DataFunctionArgs)>;
}
namespace utils {
class CharBuffer : public std::streambuf
{
  public:
    CharBuffer(char* buf, size_t size) { setg(buf, buf, buf + size); }
};
}
namespace s3 {
struct BaseUrl
{
    bool https = true;
    std::string host;
    BaseUrl() = default;
    explicit BaseUrl(std::string h, bool s = true, std::string = "")
      : https(s)
      , host(h)
    {
    }
};
struct ObjectArgs
{
    std::string bucket, object;
};
struct BucketExistsArgs : ObjectArgs
{};
struct StatObjectArgs : ObjectArgs
{};
struct RemoveObjectArgs : ObjectArgs
{};
struct GetObjectArgs : ObjectArgs
{
    http::DataFunction datafunc;
};
struct PutObjectArgs : ObjectArgs
{
    std::istream& stream;
    long object_size;
    PutObjectArgs(std::istream& s, long n, long)
      : stream(s)
      , object_size(n)
    {
    }
};
struct CreateMultipartUploadArgs : ObjectArgs
{};
struct Part
{
    unsigned int number = 0;
    std::string etag;
    size_t size = 0;
};
struct UploadPartArgs : ObjectArgs
{
    std::string upload_id;
    unsigned int part_number = 0;
    std::string_view data;
};
struct CompleteMultipartUploadArgs : ObjectArgs
{
    std::string upload_id;
    std::list<Part> parts;
};
struct AbortMultipartUploadArgs : ObjectArgs
{
    std::string upload_id;
};
struct DeleteObject
{
    std::string name;
    std::string version_id;
};
struct DeleteError
{
    std::string message, object_name, bucket_name, code, resource;
    operator bool() const { return !message.empty(); }
    error::Error Error() const { return { message }; }
};
struct RemoveObjectsArgs : ObjectArgs
{
    std::function<bool(DeleteObject&)> func;
};
struct RemoveObjectsResult
{
    int i = 0;
    DeleteError operator*() { return {}; }
    operator bool() const { return i > 0; }
    RemoveObjectsResult& operator++()
    {
        --i;
        return *this;
    }
    RemoveObjectsResult& operator++(int) { return ++*this; }
};
struct Response
{
    std::string err;
    operator bool() const { return err.empty(); }
    error::Error Error() const { return { err }; }
};
struct ListBucketsResponse : Response
{};
struct BucketExistsResponse : Response
{
    bool exist = false;
};
struct StatObjectResponse : Response
{
    size_t size = 0;
};
struct PutObjectResponse : Response
{
    std::string etag;
};
struct UploadPartResponse : Response
{
    std::string etag;
};
struct RemoveObjectResponse : Response
{};
struct GetObjectResponse : Response
{};
struct CreateMultipartUploadResponse : Response
{
    std::string upload_id;
};
struct CompleteMultipartUploadResponse : Response
{
    std::string etag;
};
struct AbortMultipartUploadResponse : Response
{};
class Client
{
    template<class R>
    static R fail(const std::string& m)
    {
        R r;
        r.err = m;
        return r;
    }

  public:
    explicit Client(BaseUrl&, creds::Provider* = nullptr) {}
    ListBucketsResponse ListBuckets()
    {
        if (fake::failing("ListBuckets", ""))
            return fail<ListBucketsResponse>("fault");
        return {};
    }
    BucketExistsResponse BucketExists(BucketExistsArgs a)
    {
        if (fake::failing("BucketExists", a.bucket))
            return fail<BucketExistsResponse>("fault");
        std::lock_guard l(fake::state().m);
        BucketExistsResponse r;
        r.exist = fake::state().buckets.count(a.bucket) > 0;
        return r;
    }
    StatObjectResponse StatObject(StatObjectArgs a)
    {
        if (fake::failing("StatObject", a.object))
            return fail<StatObjectResponse>("fault");
        std::lock_guard l(fake::state().m);
        auto& b = fake::state().buckets[a.bucket];
        auto it = b.find(a.object);
        if (it == b.end())
            return fail<StatObjectResponse>("no such object");
        StatObjectResponse r;
        r.size = it->second.size();
        return r;
    }
    PutObjectResponse PutObject(PutObjectArgs a)
    {
        if (fake::failing("PutObject", a.object))
            return fail<PutObjectResponse>("fault");
        std::string s(std::istreambuf_iterator<char>(a.stream), {});
        std::lock_guard l(fake::state().m);
        fake::state().buckets[a.bucket][a.object] = s;
        PutObjectResponse r;
        r.etag = "e";
        return r;
    }
    RemoveObjectResponse RemoveObject(RemoveObjectArgs a)
    {
        if (fake::failing("RemoveObject", a.object))
            return fail<RemoveObjectResponse>("fault");
        std::lock_guard l(fake::state().m);
        fake::state().buckets[a.bucket].erase(a.object);
        return {};
    }
    RemoveObjectsResult RemoveObjects(RemoveObjectsArgs a)
    {
        DeleteObject o;
        std::vector<std::string> names;
        while (a.func(o))
            names.push_back(o.name);
        std::lock_guard l(fake::state().m);
        for (auto& n : names)
            fake::state().buckets[a.bucket].erase(n);
        return {};
    }
    GetObjectResponse GetObject(GetObjectArgs a)
    {
        std::string s;
        {
            std::lock_guard l(fake::state().m);
            auto& b = fake::state().buckets[a.bucket];
            auto it = b.find(a.object);
            if (it == b.end())
                return fail<GetObjectResponse>("no such object");
            s = it->second;
        }
        http::DataFunctionArgs d;
        d.datachunk = s;
        a.datafunc(d);
        return {};
    }
    CreateMultipartUploadResponse CreateMultipartUpload(CreateMultipartUploadArgs a)
    {
        if (fake::failing("CreateMultipartUpload", a.object))
            return fail<CreateMultipartUploadResponse>("fault");
        std::lock_guard l(fake::state().m);
        CreateMultipartUploadResponse r;
        r.upload_id = "u" + std::to_string(fake::state().next++);
        fake::state().uploads[r.upload_id];
        return r;
    }
    UploadPartResponse UploadPart(UploadPartArgs a)
    {
        if (fake::failing("UploadPart", a.object))
            return fail<UploadPartResponse>("fault");
        std::lock_guard l(fake::state().m);
        auto it = fake::state().uploads.find(a.upload_id);
        if (it == fake::state().uploads.end())
            return fail<UploadPartResponse>("no such upload");
        it->second[a.part_number] = std::string(a.data);
        UploadPartResponse r;
        r.etag = "e" + std::to_string(a.part_number);
        return r;
    }
    CompleteMultipartUploadResponse CompleteMultipartUpload(CompleteMultipartUploadArgs a)
    {
        if (fake::failing("CompleteMultipartUpload", a.object))
            return fail<CompleteMultipartUploadResponse>("fault");
        std::lock_guard l(fake::state().m);
        auto it = fake::state().uploads.find(a.upload_id);
        if (it == fake::state().uploads.end())
            return fail<CompleteMultipartUploadResponse>("no such upload");
        std::string s;
        for (auto& p : a.parts)
            s += it->second.at(p.number);
        fake::state().buckets[a.bucket][a.object] = s;
        fake::state().uploads.erase(it);
        return {};
    }
    AbortMultipartUploadResponse AbortMultipartUpload(AbortMultipartUploadArgs a)
    {
        std::lock_guard l(fake::state().m);
        fake::state().uploads.erase(a.upload_id);
        return {};
    }
};
}
}
