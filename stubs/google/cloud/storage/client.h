#pragma once
#include <string>
#include <istream>
#include <ostream>
#include <cstdint>
#include <vector>
namespace google::cloud {
struct Status { bool good = true; std::string text; bool ok() const { return good; } const std::string& message() const { return text; } };
template <class T> struct StatusOr {
  Status state;
  T held;
  bool ok() const { return state.good; } explicit operator bool() const { return state.good; } const Status& status() const { return state; }
  T* operator->() { return &held; } const T* operator->() const { return &held; } T& operator*() { return held; } T& value() { return held; }
};
namespace storage {
struct ReadRange { ReadRange(); ReadRange(int64_t, int64_t); };
struct ContentType { std::string text; explicit ContentType(const std::string& t) : text(t) {} };
struct ObjectMetadata { uint64_t length = 0; uint64_t size() const { return length; } };
struct ObjectReadStream : std::istream { ObjectReadStream(); ObjectReadStream(ObjectReadStream&&); const Status& status() const; };
// what was asked of the service, and what it refuses
struct Board {
  int refuses = 0;
  bool ends = true;
  bool named = true;
  int begun = 0;
  int closed = 0;
  int aborted = 0;
  std::vector<std::string> text;
};
struct ObjectWriteStream {
  Board* board = nullptr;
  std::string session;
  void write(const char* p, std::streamsize n) { board->text.push_back(std::string(p, p + n)); }
  void Close() { board->closed = board->closed + 1; }
  StatusOr<ObjectMetadata> metadata() const { StatusOr<ObjectMetadata> r; r.state.good = board->ends; return r; }
  Status last_status() const { Status r; r.good = (board->refuses >> (board->text.size() - 1) & 1) == 0; return r; }
  const std::string& resumable_session_id() const { return session; }
};
class Client {
 public:
  Board* board = nullptr;
  Client();
  explicit Client(Board* b) : board(b) {}
  ObjectReadStream ReadObject(const std::string&, const std::string&, ReadRange);
  ObjectReadStream ReadObject(const std::string&, const std::string&);
  ObjectWriteStream WriteObject(const std::string& bucket, const std::string& key, ContentType) {
    board->begun = board->begun + 1;
    if (bucket != "bucket" || key != "some/key") board->named = false;
    ObjectWriteStream s;
    s.board = board;
    s.session = "session";
    return s;
  }
  ObjectWriteStream WriteObject(const std::string&, const std::string&);
  StatusOr<ObjectMetadata> GetObjectMetadata(const std::string&, const std::string&);
  Status DeleteResumableUpload(const std::string& id) {
    board->aborted = board->aborted + 1;
    if (id != "session") board->named = false;
    return Status();
  }
};
}
}
