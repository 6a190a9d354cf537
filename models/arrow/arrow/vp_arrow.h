// Stand-in for the Apache Arrow headers, which are not installed: type descriptions are implemented,
// everything that computes on Arrow data is only declared. Sources that merely mention Arrow types can
// then be compiled from the repository; a call that reaches an undefined Arrow function ends a run as
// an error of the check.
#pragma once
#include <cstdint>
#include <functional>
#include <iosfwd>
#include <memory>
#include <optional>
#include <string>
#include <string_view>
#include <unordered_map>
#include <utility>
#include <vector>
extern "C" {
#ifndef ARROW_C_DATA_INTERFACE
#define ARROW_C_DATA_INTERFACE
#define ARROW_FLAG_DICTIONARY_ORDERED 1
#define ARROW_FLAG_NULLABLE 2
#define ARROW_FLAG_MAP_KEYS_SORTED 4
struct ArrowSchema {
    const char* format;
    const char* name;
    const char* metadata;
    int64_t flags;
    int64_t n_children;
    struct ArrowSchema** children;
    struct ArrowSchema* dictionary;
    void (*release)(struct ArrowSchema*);
    void* private_data;
};
struct ArrowArray {
    int64_t length;
    int64_t null_count;
    int64_t offset;
    int64_t n_buffers;
    int64_t n_children;
    const void** buffers;
    struct ArrowArray** children;
    struct ArrowArray* dictionary;
    void (*release)(struct ArrowArray*);
    void* private_data;
};
#endif
}
inline int ArrowArrayIsReleased(const struct ArrowArray* a) { return a->release == nullptr; }
inline int ArrowSchemaIsReleased(const struct ArrowSchema* a) { return a->release == nullptr; }
inline void ArrowArrayMarkReleased(struct ArrowArray* a) { a->release = nullptr; }
inline void ArrowSchemaMarkReleased(struct ArrowSchema* a) { a->release = nullptr; }
inline void ArrowArrayMove(struct ArrowArray* s, struct ArrowArray* d) { *d = *s; s->release = nullptr; }
inline void ArrowSchemaMove(struct ArrowSchema* s, struct ArrowSchema* d) { *d = *s; s->release = nullptr; }
inline void ArrowArrayRelease(struct ArrowArray* a) { if (a->release) { a->release(a); a->release = nullptr; } }
inline void ArrowSchemaRelease(struct ArrowSchema* a) { if (a->release) { a->release(a); a->release = nullptr; } }
namespace arrow {
enum class StatusCode : char { OK = 0, OutOfMemory = 1, KeyError = 2, TypeError = 3, Invalid = 4, IOError = 5, CapacityError = 6, IndexError = 7,
    Cancelled = 8, UnknownError = 9, NotImplemented = 10, SerializationError = 11, RError = 13, CodeGenError = 40, ExpressionValidationError = 41, ExecutionError = 42, AlreadyExists = 45 };
class Status {
 public:
    Status() = default;
    Status(StatusCode c, std::string m) : c_(c), m_(std::move(m)) {}
    static Status OK() { return Status(); }
#define VP_AS(n) template <typename... A> static Status n(A&&...) { return Status(StatusCode::n, #n); }
    VP_AS(OutOfMemory) VP_AS(KeyError) VP_AS(TypeError) VP_AS(Invalid) VP_AS(IOError) VP_AS(CapacityError) VP_AS(IndexError) VP_AS(UnknownError) VP_AS(NotImplemented) VP_AS(SerializationError)
#undef VP_AS
    bool ok() const { return c_ == StatusCode::OK; }
    StatusCode code() const { return c_; }
    const std::string& message() const { return m_; }
    std::string ToString() const { return m_; }
 private:
    StatusCode c_ = StatusCode::OK;
    std::string m_;
};
template <typename T>
class Result {
 public:
    Result(const Status& s) : s_(s) {}
    template <typename U, typename = std::enable_if_t<std::is_convertible_v<U, T>>> Result(U&& v) : v_(std::forward<U>(v)) {}
    bool ok() const { return s_.ok(); }
    const Status& status() const { return s_; }
    T& ValueOrDie() & { return *v_; }
    T ValueOrDie() && { return std::move(*v_); }
    const T& ValueOrDie() const& { return *v_; }
    T& operator*() & { return *v_; }
    T* operator->() { return &*v_; }
    T ValueUnsafe() && { return std::move(*v_); }
    T& ValueUnsafe() & { return *v_; }
    template <typename U> T ValueOr(U&& u) && { return v_ ? std::move(*v_) : T(std::forward<U>(u)); }
    T MoveValueUnsafe() { return std::move(*v_); }
 private:
    Status s_;
    std::optional<T> v_;
};
struct Type {
    enum type { NA = 0, BOOL, UINT8, INT8, UINT16, INT16, UINT32, INT32, UINT64, INT64, HALF_FLOAT, FLOAT, DOUBLE, STRING, BINARY, FIXED_SIZE_BINARY, DATE32, DATE64, TIMESTAMP,
        TIME32, TIME64, INTERVAL_MONTHS, INTERVAL_DAY_TIME, DECIMAL128, DECIMAL = DECIMAL128, DECIMAL256, LIST, STRUCT, SPARSE_UNION, DENSE_UNION, DICTIONARY, MAP, EXTENSION,
        FIXED_SIZE_LIST, DURATION, LARGE_STRING, LARGE_BINARY, LARGE_LIST, INTERVAL_MONTH_DAY_NANO, RUN_END_ENCODED, STRING_VIEW, BINARY_VIEW, MAX_ID };
};
struct TimeUnit { enum type { SECOND = 0, MILLI = 1, MICRO = 2, NANO = 3 }; };
class KeyValueMetadata {
 public:
    KeyValueMetadata() = default;
    KeyValueMetadata(std::vector<std::string> k, std::vector<std::string> v) : k_(std::move(k)), v_(std::move(v)) {}
    explicit KeyValueMetadata(const std::unordered_map<std::string, std::string>& m) { for (auto& p : m) { k_.push_back(p.first); v_.push_back(p.second); } }
    static std::shared_ptr<KeyValueMetadata> Make(std::vector<std::string> k, std::vector<std::string> v) { return std::make_shared<KeyValueMetadata>(std::move(k), std::move(v)); }
    Result<std::string> Get(std::string_view key) const { for (size_t i = 0; i < k_.size(); i++) if (k_[i] == key) return v_[i]; return Status::KeyError(); }
    bool Contains(std::string_view key) const { return FindKey(key) >= 0; }
    int FindKey(std::string_view key) const { for (size_t i = 0; i < k_.size(); i++) if (k_[i] == key) return (int)i; return -1; }
    Status Set(const std::string& k, const std::string& v) { int i = FindKey(k); if (i < 0) { k_.push_back(k); v_.push_back(v); } else v_[i] = v; return Status::OK(); }
    void Append(std::string k, std::string v) { k_.push_back(std::move(k)); v_.push_back(std::move(v)); }
    void ToUnorderedMap(std::unordered_map<std::string, std::string>* o) const { for (size_t i = 0; i < k_.size(); i++) (*o)[k_[i]] = v_[i]; }
    int64_t size() const { return (int64_t)k_.size(); }
    const std::string& key(int64_t i) const { return k_[i]; }
    const std::string& value(int64_t i) const { return v_[i]; }
    const std::vector<std::string>& keys() const { return k_; }
    const std::vector<std::string>& values() const { return v_; }
    std::shared_ptr<KeyValueMetadata> Copy() const { return std::make_shared<KeyValueMetadata>(*this); }
    std::shared_ptr<KeyValueMetadata> Merge(const KeyValueMetadata& o) const { auto r = Copy(); for (size_t i = 0; i < o.k_.size(); i++) r->Set(o.k_[i], o.v_[i]); return r; }
    bool Equals(const KeyValueMetadata& o) const { return k_ == o.k_ && v_ == o.v_; }
 private:
    std::vector<std::string> k_, v_;
};
inline std::shared_ptr<KeyValueMetadata> key_value_metadata(const std::unordered_map<std::string, std::string>& m) { return std::make_shared<KeyValueMetadata>(m); }
inline std::shared_ptr<KeyValueMetadata> key_value_metadata(std::vector<std::string> k, std::vector<std::string> v) { return std::make_shared<KeyValueMetadata>(std::move(k), std::move(v)); }
class Field;
using FieldVector = std::vector<std::shared_ptr<Field>>;
class DataType {
 public:
    explicit DataType(Type::type id) : id_(id) {}
    virtual ~DataType() = default;
    Type::type id() const { return id_; }
    bool Equals(const DataType& o, bool check_metadata = false) const;
    bool Equals(const std::shared_ptr<DataType>& o) const { return o && Equals(*o); }
    const std::shared_ptr<Field>& field(int i) const { return children_[i]; }
    const FieldVector& fields() const { return children_; }
    int num_fields() const { return (int)children_.size(); }
    virtual std::string ToString(bool = false) const { return std::to_string((int)id_); }
    virtual std::string name() const { return std::to_string((int)id_); }
 protected:
    virtual bool Same(const DataType&) const { return true; }
    Type::type id_;
    FieldVector children_;
};
using DataTypeVector = std::vector<std::shared_ptr<DataType>>;
class Field {
 public:
    Field(std::string n, std::shared_ptr<DataType> t, bool nullable = true, std::shared_ptr<const KeyValueMetadata> m = nullptr) : n_(std::move(n)), t_(std::move(t)), nullable_(nullable), m_(std::move(m)) {}
    const std::string& name() const { return n_; }
    const std::shared_ptr<DataType>& type() const { return t_; }
    bool nullable() const { return nullable_; }
    std::shared_ptr<const KeyValueMetadata> metadata() const { return m_; }
    bool HasMetadata() const { return m_ && m_->size() > 0; }
    bool Equals(const Field& o, bool check_metadata = false) const { return n_ == o.n_ && nullable_ == o.nullable_ && t_->Equals(*o.t_); }
    bool Equals(const std::shared_ptr<Field>& o, bool check_metadata = false) const { return Equals(*o); }
    std::string ToString(bool = false) const { return n_; }
    std::shared_ptr<Field> WithMetadata(const std::shared_ptr<const KeyValueMetadata>& m) const { return std::make_shared<Field>(n_, t_, nullable_, m); }
    std::shared_ptr<Field> WithMergedMetadata(const std::shared_ptr<const KeyValueMetadata>& m) const { return std::make_shared<Field>(n_, t_, nullable_, m_ ? std::shared_ptr<const KeyValueMetadata>(m_->Merge(*m)) : m); }
    std::shared_ptr<Field> RemoveMetadata() const { return std::make_shared<Field>(n_, t_, nullable_); }
    std::shared_ptr<Field> WithType(const std::shared_ptr<DataType>& t) const { return std::make_shared<Field>(n_, t, nullable_, m_); }
    std::shared_ptr<Field> WithName(const std::string& n) const { return std::make_shared<Field>(n, t_, nullable_, m_); }
    std::shared_ptr<Field> WithNullable(bool b) const { return std::make_shared<Field>(n_, t_, b, m_); }
 private:
    std::string n_;
    std::shared_ptr<DataType> t_;
    bool nullable_;
    std::shared_ptr<const KeyValueMetadata> m_;
};
inline bool DataType::Equals(const DataType& o, bool) const {
    if (id_ != o.id_ || children_.size() != o.children_.size() || !Same(o)) return false;
    for (size_t i = 0; i < children_.size(); i++) if (!children_[i]->Equals(*o.children_[i])) return false;
    return true;
}
inline std::shared_ptr<Field> field(std::string n, std::shared_ptr<DataType> t, bool nullable = true, std::shared_ptr<const KeyValueMetadata> m = nullptr) { return std::make_shared<Field>(std::move(n), std::move(t), nullable, std::move(m)); }
inline std::shared_ptr<Field> field(std::string n, std::shared_ptr<DataType> t, std::shared_ptr<const KeyValueMetadata> m) { return std::make_shared<Field>(std::move(n), std::move(t), true, std::move(m)); }
template <Type::type I> class PrimitiveT : public DataType { public: PrimitiveT() : DataType(I) {} static constexpr Type::type type_id = I; };
#define VP_AT(N, I, C, F) \
    class N : public PrimitiveT<Type::I> { public: using c_type = C; }; \
    inline std::shared_ptr<DataType> F() { return std::make_shared<N>(); }
VP_AT(NullType, NA, int, null) VP_AT(BooleanType, BOOL, bool, boolean) VP_AT(Int8Type, INT8, int8_t, int8) VP_AT(Int16Type, INT16, int16_t, int16) VP_AT(Int32Type, INT32, int32_t, int32) VP_AT(Int64Type, INT64, int64_t, int64)
VP_AT(UInt8Type, UINT8, uint8_t, uint8) VP_AT(UInt16Type, UINT16, uint16_t, uint16) VP_AT(UInt32Type, UINT32, uint32_t, uint32) VP_AT(UInt64Type, UINT64, uint64_t, uint64)
VP_AT(FloatType, FLOAT, float, float32) VP_AT(DoubleType, DOUBLE, double, float64) VP_AT(StringType, STRING, std::string, utf8) VP_AT(BinaryType, BINARY, std::string, binary)
VP_AT(LargeBinaryType, LARGE_BINARY, std::string, large_binary) VP_AT(LargeStringType, LARGE_STRING, std::string, large_utf8) VP_AT(Date32Type, DATE32, int32_t, date32)
#undef VP_AT
class BaseListType : public DataType {
 public:
    BaseListType(Type::type id, std::shared_ptr<Field> f) : DataType(id) { children_ = {std::move(f)}; }
    const std::shared_ptr<Field>& value_field() const { return children_[0]; }
    const std::shared_ptr<DataType>& value_type() const { return children_[0]->type(); }
};
class ListType : public BaseListType { public: explicit ListType(std::shared_ptr<Field> f) : BaseListType(Type::LIST, std::move(f)) {} explicit ListType(std::shared_ptr<DataType> t) : BaseListType(Type::LIST, ::arrow::field("item", std::move(t))) {} static constexpr Type::type type_id = Type::LIST; };
class StructType : public DataType {
 public:
    explicit StructType(const FieldVector& f) : DataType(Type::STRUCT) { children_ = f; }
    static constexpr Type::type type_id = Type::STRUCT;
    std::shared_ptr<Field> GetFieldByName(const std::string& n) const { int i = GetFieldIndex(n); return i < 0 ? nullptr : children_[i]; }
    int GetFieldIndex(const std::string& n) const { for (size_t i = 0; i < children_.size(); i++) if (children_[i]->name() == n) return (int)i; return -1; }
    Result<std::shared_ptr<StructType>> AddField(int, const std::shared_ptr<Field>&) const;
};
class MapType : public BaseListType {
 public:
    MapType(std::shared_ptr<DataType> k, std::shared_ptr<Field> v) : BaseListType(Type::MAP, ::arrow::field("entries", std::make_shared<StructType>(FieldVector{::arrow::field("key", std::move(k), false), std::move(v)}), false)) {}
    MapType(std::shared_ptr<DataType> k, std::shared_ptr<DataType> v) : MapType(std::move(k), ::arrow::field("value", std::move(v))) {}
    std::shared_ptr<Field> key_field() const { return value_type()->field(0); }
    std::shared_ptr<DataType> key_type() const { return key_field()->type(); }
    std::shared_ptr<Field> item_field() const { return value_type()->field(1); }
    std::shared_ptr<DataType> item_type() const { return item_field()->type(); }
    static constexpr Type::type type_id = Type::MAP;
};
class TimestampType : public DataType {
 public:
    using c_type = int64_t;
    explicit TimestampType(TimeUnit::type u = TimeUnit::MILLI, std::string tz = "") : DataType(Type::TIMESTAMP), u_(u), tz_(std::move(tz)) {}
    TimeUnit::type unit() const { return u_; }
    const std::string& timezone() const { return tz_; }
    static constexpr Type::type type_id = Type::TIMESTAMP;
 protected:
    bool Same(const DataType& o) const override { auto& t = static_cast<const TimestampType&>(o); return u_ == t.u_ && tz_ == t.tz_; }
    TimeUnit::type u_;
    std::string tz_;
};
class DecimalType : public DataType {
 public:
    DecimalType(Type::type id, int p, int s) : DataType(id), p_(p), s_(s) {}
    int precision() const { return p_; }
    int scale() const { return s_; }
 protected:
    bool Same(const DataType& o) const override { auto& t = static_cast<const DecimalType&>(o); return p_ == t.p_ && s_ == t.s_; }
    int p_, s_;
};
class Decimal128Type : public DecimalType { public: Decimal128Type(int p, int s) : DecimalType(Type::DECIMAL128, p, s) {} static constexpr Type::type type_id = Type::DECIMAL128; using c_type = int64_t; };
class DictionaryType : public DataType { public: DictionaryType(std::shared_ptr<DataType> i, std::shared_ptr<DataType> v) : DataType(Type::DICTIONARY), i_(i), v_(v) {} const std::shared_ptr<DataType>& index_type() const { return i_; } const std::shared_ptr<DataType>& value_type() const { return v_; } private: std::shared_ptr<DataType> i_, v_; };
inline std::shared_ptr<DataType> dictionary(const std::shared_ptr<DataType>& i, const std::shared_ptr<DataType>& v, bool = false) { return std::make_shared<DictionaryType>(i, v); }
inline std::shared_ptr<DataType> timestamp(TimeUnit::type u) { return std::make_shared<TimestampType>(u); }
inline std::shared_ptr<DataType> timestamp(TimeUnit::type u, const std::string& tz) { return std::make_shared<TimestampType>(u, tz); }
inline std::shared_ptr<DataType> decimal128(int p, int s) { return std::make_shared<Decimal128Type>(p, s); }
inline std::shared_ptr<DataType> list(const std::shared_ptr<Field>& f) { return std::make_shared<ListType>(f); }
inline std::shared_ptr<DataType> list(const std::shared_ptr<DataType>& t) { return std::make_shared<ListType>(t); }
inline std::shared_ptr<DataType> map(std::shared_ptr<DataType> k, std::shared_ptr<DataType> v, bool = false) { return std::make_shared<MapType>(std::move(k), std::move(v)); }
inline std::shared_ptr<DataType> map(std::shared_ptr<DataType> k, std::shared_ptr<Field> v, bool = false) { return std::make_shared<MapType>(std::move(k), std::move(v)); }
inline std::shared_ptr<DataType> struct_(const FieldVector& f) { return std::make_shared<StructType>(f); }
class Schema {
 public:
    explicit Schema(FieldVector f, std::shared_ptr<const KeyValueMetadata> m = nullptr) : f_(std::move(f)), m_(std::move(m)) {}
    int num_fields() const { return (int)f_.size(); }
    const std::shared_ptr<Field>& field(int i) const { return f_[i]; }
    const FieldVector& fields() const { return f_; }
    std::vector<std::string> field_names() const { std::vector<std::string> r; for (auto& f : f_) r.push_back(f->name()); return r; }
    std::shared_ptr<Field> GetFieldByName(std::string_view n) const { int i = GetFieldIndex(n); return i < 0 ? nullptr : f_[i]; }
    int GetFieldIndex(std::string_view n) const { for (size_t i = 0; i < f_.size(); i++) if (f_[i]->name() == n) return (int)i; return -1; }
    bool Equals(const Schema& o, bool = false) const { if (f_.size() != o.f_.size()) return false; for (size_t i = 0; i < f_.size(); i++) if (!f_[i]->Equals(*o.f_[i])) return false; return true; }
    bool Equals(const std::shared_ptr<Schema>& o, bool m = false) const { return Equals(*o, m); }
    bool HasMetadata() const { return m_ != nullptr; }
    const std::shared_ptr<const KeyValueMetadata>& metadata() const { return m_; }
    std::shared_ptr<Schema> WithMetadata(const std::shared_ptr<const KeyValueMetadata>& m) const { return std::make_shared<Schema>(f_, m); }
    std::string ToString(bool = false) const { return "schema"; }
 private:
    FieldVector f_;
    std::shared_ptr<const KeyValueMetadata> m_;
};
inline std::shared_ptr<Schema> schema(FieldVector f, std::shared_ptr<const KeyValueMetadata> m = nullptr) { return std::make_shared<Schema>(std::move(f), std::move(m)); }
class Buffer { public: int64_t size() const; int64_t capacity() const; const uint8_t* data() const; uint8_t* mutable_data(); static std::shared_ptr<Buffer> Wrap(const void*, int64_t); };
class ResizableBuffer; class MutableBuffer;
struct ArrayData;
class MemoryPool {
 public:
    virtual ~MemoryPool() = default;
    virtual Status Allocate(int64_t size, int64_t alignment, uint8_t** out) = 0;
    virtual Status Reallocate(int64_t o, int64_t n, int64_t alignment, uint8_t** ptr) = 0;
    virtual void Free(uint8_t* b, int64_t size, int64_t alignment) = 0;
    virtual int64_t bytes_allocated() const = 0;
    virtual int64_t max_memory() const { return -1; }
    virtual int64_t total_bytes_allocated() const = 0;
    virtual int64_t num_allocations() const = 0;
    virtual std::string backend_name() const = 0;
};
MemoryPool* default_memory_pool();
class Scalar;
// arrays of values: enough to read elements; sharing, slicing and computing are not modelled
class Array {
 public:
    Array() = default;
    Array(std::shared_ptr<DataType> t, std::vector<char> valid) : t_(std::move(t)), valid_(std::move(valid)) {}
    virtual ~Array() = default;
    int64_t length() const { return (int64_t)valid_.size(); }
    int64_t null_count() const { int64_t n = 0; for (char c : valid_) n += !c; return n; }
    int64_t offset() const { return 0; }
    bool IsNull(int64_t i) const { return !valid_[i]; }
    bool IsValid(int64_t i) const { return valid_[i]; }
    const std::shared_ptr<DataType>& type() const { return t_; }
    Type::type type_id() const { return t_->id(); }
    std::shared_ptr<Array> Slice(int64_t o, int64_t l) const;
    std::shared_ptr<Array> Slice(int64_t o) const;
    const std::shared_ptr<ArrayData>& data() const;
    Result<std::shared_ptr<Scalar>> GetScalar(int64_t i) const;
    std::string ToString() const;
    bool Equals(const std::shared_ptr<Array>&) const;
    bool Equals(const Array&) const;
 protected:
    std::shared_ptr<DataType> t_;
    std::vector<char> valid_;
};
using ArrayVector = std::vector<std::shared_ptr<Array>>;
class PrimitiveArray : public Array { public: using Array::Array; };
template <typename T> class NumericArray : public PrimitiveArray {
 public:
    using TypeClass = T;
    using value_type = typename T::c_type;
    NumericArray() = default;
    NumericArray(std::shared_ptr<DataType> t, std::vector<char> valid, std::vector<value_type> v) : PrimitiveArray(std::move(t), std::move(valid)), v_(std::move(v)) {}
    value_type Value(int64_t i) const { return v_[i]; }
    const value_type* raw_values() const { return v_.data(); }
 private:
    std::vector<value_type> v_;
};
class BooleanArray : public PrimitiveArray {
 public:
    BooleanArray() = default;
    BooleanArray(std::shared_ptr<DataType> t, std::vector<char> valid, std::vector<char> v) : PrimitiveArray(std::move(t), std::move(valid)), v_(std::move(v)) {}
    bool Value(int64_t i) const { return v_[i]; }
 private:
    std::vector<char> v_;
};
using Int8Array = NumericArray<Int8Type>; using Int16Array = NumericArray<Int16Type>; using Int32Array = NumericArray<Int32Type>; using Int64Array = NumericArray<Int64Type>;
using FloatArray = NumericArray<FloatType>; using DoubleArray = NumericArray<DoubleType>; using Date32Array = NumericArray<Date32Type>; using TimestampArray = NumericArray<TimestampType>;
using UInt64Array = NumericArray<UInt64Type>; using UInt32Array = NumericArray<UInt32Type>;
template <typename T, typename O> class BaseBinaryArray : public Array {
 public:
    using TypeClass = T;
    using offset_type = O;
    BaseBinaryArray() = default;
    BaseBinaryArray(std::shared_ptr<DataType> t, std::vector<char> valid, std::vector<std::string> v) : Array(std::move(t), std::move(valid)), v_(std::move(v)) {}
    std::string_view GetView(int64_t i) const { return v_[i]; }
    std::string_view Value(int64_t i) const { return v_[i]; }
    std::string GetString(int64_t i) const { return v_[i]; }
    const uint8_t* GetValue(int64_t i, O* n) const { *n = (O)v_[i].size(); return (const uint8_t*)v_[i].data(); }
    int64_t total_values_length() const;
    std::shared_ptr<Buffer> value_data() const;
 private:
    std::vector<std::string> v_;
};
class BinaryArray : public BaseBinaryArray<BinaryType, int32_t> { public: using BaseBinaryArray::BaseBinaryArray; };
class StringArray : public BaseBinaryArray<StringType, int32_t> { public: using BaseBinaryArray::BaseBinaryArray; };
class LargeBinaryArray : public BaseBinaryArray<LargeBinaryType, int64_t> { public: using BaseBinaryArray::BaseBinaryArray; };
class LargeStringArray : public BaseBinaryArray<LargeStringType, int64_t> { public: using BaseBinaryArray::BaseBinaryArray; };
class FixedSizeBinaryArray : public PrimitiveArray {
 public:
    FixedSizeBinaryArray() = default;
    FixedSizeBinaryArray(std::shared_ptr<DataType> t, std::vector<char> valid, std::vector<std::string> v) : PrimitiveArray(std::move(t), std::move(valid)), v_(std::move(v)) {}
    const uint8_t* GetValue(int64_t i) const { return (const uint8_t*)v_[i].data(); }
    std::string_view GetView(int64_t i) const { return v_[i]; }
 private:
    std::vector<std::string> v_;
};
class Decimal128Array : public FixedSizeBinaryArray { public: using FixedSizeBinaryArray::FixedSizeBinaryArray; std::string FormatValue(int64_t) const; };
class StructArray : public Array {
 public:
    StructArray() = default;
    StructArray(std::shared_ptr<DataType> t, std::vector<char> valid, ArrayVector f) : Array(std::move(t), std::move(valid)), f_(std::move(f)) {}
    const std::shared_ptr<Array>& field(int i) const { return f_[i]; }
    const ArrayVector& fields() const { return f_; }
    int num_fields() const { return (int)f_.size(); }
    std::shared_ptr<Array> GetFieldByName(const std::string&) const;
    const StructType* struct_type() const { return static_cast<const StructType*>(t_.get()); }
    Result<ArrayVector> Flatten(MemoryPool* = nullptr) const;
    static Result<std::shared_ptr<StructArray>> Make(const ArrayVector&, const FieldVector&, std::shared_ptr<Buffer> = nullptr, int64_t = -1, int64_t = 0);
    static Result<std::shared_ptr<StructArray>> Make(const ArrayVector&, const std::vector<std::string>&, std::shared_ptr<Buffer> = nullptr, int64_t = -1, int64_t = 0);
 private:
    ArrayVector f_;
};
class ListArray : public Array { public: std::shared_ptr<Array> values() const; int32_t value_offset(int64_t) const; int32_t value_length(int64_t) const; std::shared_ptr<Array> value_slice(int64_t) const; };
class MapArray : public ListArray { public: const std::shared_ptr<Array>& keys() const; const std::shared_ptr<Array>& items() const; };
class DictionaryArray : public Array { public: int64_t GetValueIndex(int64_t) const; std::shared_ptr<Array> dictionary() const; const std::shared_ptr<Array>& indices() const; };
class ChunkedArray { public: int64_t length() const; const std::shared_ptr<Array>& chunk(int) const; int num_chunks() const; };
class RecordBatch; class Table;
class ArrayBuilder { public: virtual ~ArrayBuilder() = default; Status Finish(std::shared_ptr<Array>*); Result<std::shared_ptr<Array>> Finish(); Status AppendNull(); Status Reserve(int64_t); int64_t length() const; Status AppendEmptyValue(); Status AppendNulls(int64_t); int num_children() const; ArrayBuilder* child(int) const; std::shared_ptr<ArrayBuilder> child_builder(int) const; void Reset(); std::shared_ptr<DataType> type() const; };
template <typename T> class NumericBuilder : public ArrayBuilder { public: Status Append(typename T::c_type); void UnsafeAppend(typename T::c_type); };
using Int8Builder = NumericBuilder<Int8Type>; using Int16Builder = NumericBuilder<Int16Type>; using Int32Builder = NumericBuilder<Int32Type>; using Int64Builder = NumericBuilder<Int64Type>;
using FloatBuilder = NumericBuilder<FloatType>; using DoubleBuilder = NumericBuilder<DoubleType>; using Date32Builder = NumericBuilder<Date32Type>; using TimestampBuilder = NumericBuilder<TimestampType>;
class BooleanBuilder : public ArrayBuilder { public: Status Append(bool); };
class BinaryBuilder : public ArrayBuilder { public: Status Append(std::string_view); Status Append(const uint8_t*, int32_t); Status Append(const char*, int32_t); };
class StringBuilder : public BinaryBuilder {};
class LargeBinaryBuilder : public BinaryBuilder {};
class StructBuilder : public ArrayBuilder { public: Status Append(bool = true); ArrayBuilder* field_builder(int) const; int num_fields() const; };
class ListBuilder : public ArrayBuilder { public: Status Append(bool = true); ArrayBuilder* value_builder() const; };
class MapBuilder : public ArrayBuilder { public: Status Append(); ArrayBuilder* key_builder() const; ArrayBuilder* item_builder() const; };
class Decimal128; class Decimal128Builder : public ArrayBuilder { public: Status Append(const Decimal128&); };
Status MakeBuilder(MemoryPool*, const std::shared_ptr<DataType>&, std::unique_ptr<ArrayBuilder>*);
Result<std::unique_ptr<ArrayBuilder>> MakeBuilder(const std::shared_ptr<DataType>&, MemoryPool* = nullptr);
Result<std::shared_ptr<Array>> MakeArrayOfNull(const std::shared_ptr<DataType>&, int64_t, MemoryPool* = nullptr);
Result<std::shared_ptr<Array>> MakeArrayFromScalar(const Scalar&, int64_t, MemoryPool* = nullptr);
Result<std::shared_ptr<Array>> Concatenate(const ArrayVector&, MemoryPool* = nullptr);
class Scalar { public: virtual ~Scalar() = default; std::shared_ptr<DataType> type; bool is_valid = false; std::string ToString() const; };
class TimestampScalar : public Scalar { public: TimestampScalar(int64_t v, TimeUnit::type u, std::string tz = ""); const void* data() const { return &value; } int64_t value; };
template <typename T> class NumScalar : public Scalar { public: explicit NumScalar(typename T::c_type v) : value(v) {} typename T::c_type value; };
using Int8Scalar = NumScalar<Int8Type>; using Int16Scalar = NumScalar<Int16Type>; using Int32Scalar = NumScalar<Int32Type>; using Int64Scalar = NumScalar<Int64Type>; using FloatScalar = NumScalar<FloatType>; using DoubleScalar = NumScalar<DoubleType>; using BooleanScalar = NumScalar<BooleanType>; using Date32Scalar = NumScalar<Date32Type>;
class Datum { public: Datum(); template <typename T> Datum(T&&); const std::shared_ptr<Scalar>& scalar() const; std::shared_ptr<Array> make_array() const; };
template <typename T> struct TypeTraits { using ArrayType = NumericArray<T>; using CType = typename T::c_type; using BuilderType = NumericBuilder<T>; using ScalarType = NumScalar<T>; };
template <> struct TypeTraits<BooleanType> { using ArrayType = BooleanArray; using CType = bool; using BuilderType = BooleanBuilder; using ScalarType = NumScalar<BooleanType>; };
template <> struct TypeTraits<StringType> { using ArrayType = StringArray; using CType = std::string; using BuilderType = StringBuilder; };
template <> struct TypeTraits<BinaryType> { using ArrayType = BinaryArray; using CType = std::string; using BuilderType = BinaryBuilder; };
template <> struct TypeTraits<Decimal128Type> { using ArrayType = Decimal128Array; using CType = Decimal128; using BuilderType = Decimal128Builder; };
template <> struct TypeTraits<LargeBinaryType> { using ArrayType = LargeBinaryArray; using CType = std::string; using BuilderType = LargeBinaryBuilder; };
namespace internal {
inline std::string ToString(Type::type t) { return std::to_string((int)t); }
class MemoryPoolStats;
template <typename T, typename U> T checked_cast(U&& u) { return static_cast<T>(u); }
template <typename T, typename U> std::shared_ptr<T> checked_pointer_cast(std::shared_ptr<U> u) { return std::static_pointer_cast<T>(std::move(u)); }
template <typename T, typename U> std::unique_ptr<T> checked_pointer_cast(std::unique_ptr<U> u) { return std::unique_ptr<T>(static_cast<T*>(u.release())); }
}
struct TypeHolder { TypeHolder(const DataType*); };
namespace compute {
struct AssumeTimezoneOptions { explicit AssumeTimezoneOptions(std::string); };
class ExecContext;
struct CastOptions { static CastOptions Safe(); static CastOptions Unsafe(); };
class Expression;
struct CastOptions;
Result<Datum> Cast(const Datum&, const TypeHolder&, const CastOptions&, ExecContext* = nullptr);
bool CanCast(const DataType&, const DataType&);
Result<Datum> LocalTimestamp(const Datum&, ExecContext* = nullptr);
Result<Datum> AssumeTimezone(const Datum&, AssumeTimezoneOptions, ExecContext* = nullptr);
Result<Datum> Cast(const Datum&, const std::shared_ptr<DataType>&, const CastOptions& = CastOptions(), ExecContext* = nullptr);
}
Status ExportArray(const Array&, struct ArrowArray*, struct ArrowSchema* = nullptr);
Status ExportType(const DataType&, struct ArrowSchema*);
Status ExportSchema(const Schema&, struct ArrowSchema*);
Status ExportField(const Field&, struct ArrowSchema*);
Result<std::shared_ptr<Array>> ImportArray(struct ArrowArray*, struct ArrowSchema*);
Result<std::shared_ptr<Array>> ImportArray(struct ArrowArray*, std::shared_ptr<DataType>);
Result<std::shared_ptr<Schema>> ImportSchema(struct ArrowSchema*);
Result<std::shared_ptr<DataType>> ImportType(struct ArrowSchema*);
Result<std::shared_ptr<Field>> ImportField(struct ArrowSchema*);
}
#define ARROW_RETURN_NOT_OK(e) do { auto _s = (e); if (!_s.ok()) return _s; } while (0)
#include "arrow/vp_decimal.h"
