#pragma once
namespace arrow {
class BasicDecimal128 {
 public:
    constexpr BasicDecimal128() = default;
    constexpr BasicDecimal128(int64_t h, uint64_t l) : h_(h), l_(l) {}
    int64_t high_bits() const { return h_; }
    uint64_t low_bits() const { return l_; }
    static BasicDecimal128 GetMinSentinel();
    static BasicDecimal128 GetMaxSentinel();
    static const BasicDecimal128& GetScaleMultiplier(int32_t);
    BasicDecimal128& operator/=(const BasicDecimal128&);
    bool FitsInPrecision(int32_t) const;
 protected:
    int64_t h_ = 0;
    uint64_t l_ = 0;
};
inline bool operator<(const BasicDecimal128& a, const BasicDecimal128& b) { return a.high_bits() < b.high_bits() || (a.high_bits() == b.high_bits() && a.low_bits() < b.low_bits()); }
inline bool operator>(const BasicDecimal128& a, const BasicDecimal128& b) { return b < a; }
inline bool operator<=(const BasicDecimal128& a, const BasicDecimal128& b) { return !(b < a); }
inline bool operator>=(const BasicDecimal128& a, const BasicDecimal128& b) { return !(a < b); }
inline bool operator==(const BasicDecimal128& a, const BasicDecimal128& b) { return a.high_bits() == b.high_bits() && a.low_bits() == b.low_bits(); }
inline bool operator!=(const BasicDecimal128& a, const BasicDecimal128& b) { return !(a == b); }
class Decimal128 : public BasicDecimal128 {
 public:
    using BasicDecimal128::BasicDecimal128;
    Decimal128() = default;
    Decimal128(const BasicDecimal128& b) : BasicDecimal128(b) {}
    explicit Decimal128(const uint8_t* p) { __builtin_memcpy(&l_, p, 8); __builtin_memcpy(&h_, p + 8, 8); }
    explicit Decimal128(const std::string&);
    std::string ToString(int32_t) const;
    std::string ToIntegerString() const;
    Result<Decimal128> Rescale(int32_t, int32_t) const;
    static Status FromString(std::string_view, Decimal128*, int32_t*, int32_t* = nullptr);
    static Result<Decimal128> FromReal(double, int32_t, int32_t);
    static Result<Decimal128> FromReal(float, int32_t, int32_t);
    double ToDouble(int32_t) const;
    float ToFloat(int32_t) const;
    Decimal128 IncreaseScaleBy(int32_t) const;
    Decimal128 ReduceScaleBy(int32_t, bool = true) const;
    explicit operator int64_t() const;
};
class Decimal128Scalar : public Scalar { public: Decimal128Scalar(Decimal128, std::shared_ptr<DataType>); Decimal128 value; };
}
namespace arrow_vendored::date {
struct time_zone { const std::string& name() const; };
const time_zone* current_zone();
}
