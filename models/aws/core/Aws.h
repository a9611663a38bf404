// Stand-in for the AWS SDK: a bucket whose contents and behaviour the harness
// decides, by defining the functions of namespace mlse_s3.
#pragma once
#include <cstddef>
#include <string>
#include <utility>
#include <vector>

namespace Aws {

using String = std::string;

namespace Http {
enum class Scheme { HTTP, HTTPS };
}

namespace Auth {
struct AWSCredentials {
    AWSCredentials() = default;
    AWSCredentials(String i, String k, String t = {}) : id{std::move(i)}, key{std::move(k)}, token{std::move(t)} {}
    String id{}, key{}, token{};
};
struct DefaultAWSCredentialsProviderChain {
    AWSCredentials GetAWSCredentials() { return {source, source}; }
    String source = "default";
};
}  // namespace Auth

namespace Client {
struct ClientConfiguration {
    ClientConfiguration() = default;
    explicit ClientConfiguration(const char *p) : profile{p} {}
    String profile{}, region{};
    Http::Scheme scheme = Http::Scheme::HTTPS;
};
template<typename E>
class AWSError {
public:
    AWSError() = default;
    explicit AWSError(E e) : type_{e} {}
    E GetErrorType() const { return type_; }
    String GetMessage() const { return "message"; }
    String GetExceptionName() const { return "name"; }

private:
    E type_{};
};
}  // namespace Client

namespace S3 {

enum class S3Errors {
    UNKNOWN,
    SERVICE_UNAVAILABLE,
    ACCESS_DENIED,
    RESOURCE_NOT_FOUND,
    NO_SUCH_BUCKET,
    NO_SUCH_KEY,
    REQUEST_TIMEOUT,
    INTERNAL_FAILURE,
};

template<typename R>
class Outcome {
public:
    Outcome(R r) : result_{std::move(r)} {}
    Outcome(Client::AWSError<S3Errors> e) : ok_{false}, error_{e} {}
    bool IsSuccess() const { return ok_; }
    const Client::AWSError<S3Errors> &GetError() const { return error_; }
    R &GetResult() { return result_; }
    const R &GetResult() const { return result_; }
    R GetResultWithOwnership() { return std::move(result_); }

private:
    bool ok_ = true;
    R result_{};
    Client::AWSError<S3Errors> error_{};
};

namespace Model {

struct Object {
    String key{};
    const String &GetKey() const { return key; }
};

struct ListObjectsV2Request {
    String bucket{}, prefix{}, token{};
    int max_keys = 1000;
    void SetBucket(String s) { bucket = std::move(s); }
    void SetPrefix(String s) { prefix = std::move(s); }
    void SetMaxKeys(int n) { max_keys = n; }
    void SetContinuationToken(String s) { token = std::move(s); }
};
struct ListObjectsV2Result {
    std::vector<Object> contents{};
    bool truncated = false;
    String token{};
    const std::vector<Object> &GetContents() const { return contents; }
    bool GetIsTruncated() const { return truncated; }
    const String &GetNextContinuationToken() const { return token; }
};
using ListObjectsV2Outcome = Outcome<ListObjectsV2Result>;

struct GetObjectRequest {
    String bucket{}, key{}, range{}, version{};
    void SetBucket(String s) { bucket = std::move(s); }
    void SetKey(String s) { key = std::move(s); }
    void SetRange(String s) { range = std::move(s); }
    void SetVersionId(String s) { version = std::move(s); }
};
// What is used of std::iostream.
class Body {
public:
    String bytes{};
    Body &read(char *p, std::ptrdiff_t n)
    {
        count_ = 0;
        while (count_ < n && at_ < bytes.size())
            p[count_++] = bytes[at_++];
        return *this;
    }
    std::ptrdiff_t gcount() const { return count_; }

private:
    std::size_t at_ = 0;
    std::ptrdiff_t count_ = 0;
};
struct GetObjectResult {
    mutable Body body{};
    Body &GetBody() const { return body; }
    long long GetContentLength() const { return static_cast<long long>(body.bytes.size()); }
};
using GetObjectOutcome = Outcome<GetObjectResult>;

struct HeadObjectRequest {
    String bucket{}, key{}, version{};
    void SetBucket(String s) { bucket = std::move(s); }
    void SetKey(String s) { key = std::move(s); }
    void SetVersionId(String s) { version = std::move(s); }
};
struct HeadObjectResult {
    long long length = 0;
    long long GetContentLength() const { return length; }
};
using HeadObjectOutcome = Outcome<HeadObjectResult>;

}  // namespace Model

class S3Client {
public:
    S3Client(Auth::AWSCredentials c = {}, Client::ClientConfiguration f = {}) : credentials{std::move(c)}, config{std::move(f)} {}
    Model::ListObjectsV2Outcome ListObjectsV2(const Model::ListObjectsV2Request &) const;
    Model::GetObjectOutcome GetObject(const Model::GetObjectRequest &) const;
    Model::HeadObjectOutcome HeadObject(const Model::HeadObjectRequest &) const;
    Auth::AWSCredentials credentials;
    Client::ClientConfiguration config;
};

}  // namespace S3
}  // namespace Aws
