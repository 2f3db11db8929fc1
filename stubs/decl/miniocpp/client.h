// Declarations-only stand-in for minio-cpp's <miniocpp/client.h>: just enough of the interface for
// /repo's sources to be parsed and type-checked. Every function is external, so the analyses treat
// a call to it as a call into an unknown (possibly failing, possibly throwing) library.
#pragma once
#include <functional>
#include <iosfwd>
#include <istream>
#include <list>
#include <string>

namespace minio {
namespace error {
class Error
{
  public:
    std::string String() const;
    operator bool() const;
    std::string msg;
};
}
namespace creds {
class Provider
{
  public:
    virtual ~Provider();
};
class StaticProvider : public Provider
{
  public:
    StaticProvider(std::string access_key, std::string secret_key, std::string session_token = "");
    ~StaticProvider() override;

  private:
    std::string a, b, c;
};
}
namespace http {
struct DataFunctionArgs
{
    std::string datachunk;
    void* userdata;
};
using DataFunction = std::function<bool(DataFunctionArgs)>;
}
namespace utils {
class CharBuffer : public std::streambuf
{
  public:
    CharBuffer(char* buf, size_t size);
    ~CharBuffer() override;
};
}
namespace s3 {
struct BaseUrl
{
    bool https = true;
    std::string host;
    unsigned int port = 0;
    BaseUrl();
    explicit BaseUrl(std::string host, bool https = true, std::string region = "");
    ~BaseUrl();
};
struct BaseArgs
{
    std::string extra;
    std::string region;
};
struct BucketArgs : BaseArgs
{
    std::string bucket;
};
struct ObjectArgs : BucketArgs
{
    std::string object;
};
struct BucketExistsArgs : BucketArgs
{};
struct StatObjectArgs : ObjectArgs
{};
struct RemoveObjectArgs : ObjectArgs
{};
struct GetObjectArgs : ObjectArgs
{
    http::DataFunction datafunc;
};
struct PutObjectArgs : ObjectArgs
{
    std::istream& stream;
    long object_size;
    long part_size;
    PutObjectArgs(std::istream& stream, long object_size, long part_size);
};
struct CreateMultipartUploadArgs : ObjectArgs
{};
struct Part
{
    unsigned int number = 0;
    std::string etag;
    size_t size = 0;
};
struct UploadPartArgs : ObjectArgs
{
    std::string upload_id;
    unsigned int part_number = 0;
    std::string_view data;
    UploadPartArgs();
};
struct CompleteMultipartUploadArgs : ObjectArgs
{
    std::string upload_id;
    std::list<Part> parts;
    CompleteMultipartUploadArgs();
};
struct AbortMultipartUploadArgs : ObjectArgs
{
    std::string upload_id;
};
struct Response
{
    int status_code = 0;
    std::string etag_raw;
    Response();
    ~Response();
    operator bool() const;
    error::Error Error() const;
};
struct ListBucketsResponse : Response
{};
struct BucketExistsResponse : Response
{
    bool exist = false;
};
struct StatObjectResponse : Response
{
    size_t size = 0;
};
struct PutObjectResponse : Response
{
    std::string etag;
};
struct UploadPartResponse : Response
{
    std::string etag;
};
struct RemoveObjectResponse : Response
{};
struct GetObjectResponse : Response
{};
struct CreateMultipartUploadResponse : Response
{
    std::string upload_id;
};
struct CompleteMultipartUploadResponse : Response
{
    std::string etag;
};
struct AbortMultipartUploadResponse : Response
{};
class Client
{
  public:
    explicit Client(BaseUrl& base_url, creds::Provider* provider = nullptr);
    ~Client();
    ListBucketsResponse ListBuckets();
    BucketExistsResponse BucketExists(BucketExistsArgs args);
    StatObjectResponse StatObject(StatObjectArgs args);
    PutObjectResponse PutObject(PutObjectArgs args);
    RemoveObjectResponse RemoveObject(RemoveObjectArgs args);
    GetObjectResponse GetObject(GetObjectArgs args);
    CreateMultipartUploadResponse CreateMultipartUpload(CreateMultipartUploadArgs args);
    UploadPartResponse UploadPart(UploadPartArgs args);
    CompleteMultipartUploadResponse CompleteMultipartUpload(CompleteMultipartUploadArgs args);
    AbortMultipartUploadResponse AbortMultipartUpload(AbortMultipartUploadArgs args);

  private:
    void* impl_;
};
}
}
