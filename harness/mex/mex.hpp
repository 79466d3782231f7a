// A stand-in for the MATLAB C++ MEX and Data interfaces, with the documented
// semantics of the part the wrapper functions use: typed arrays stored by
// columns, conversion of numeric elements, type mismatches and error() raised
// as exceptions.
#pragma once
#include <cstdint>
#include <initializer_list>
#include <map>
#include <memory>
#include <sstream>
#include <stdexcept>
#include <string>
#include <type_traits>
#include <utility>
#include <variant>
#include <vector>

namespace matlab {

namespace data {

enum class ArrayType
{
	LOGICAL,
	CHAR,
	MATLAB_STRING,
	DOUBLE,
	SINGLE,
	INT8,
	UINT8,
	INT16,
	UINT16,
	INT32,
	UINT32,
	INT64,
	UINT64,
	UNKNOWN
};

struct Exception : std::runtime_error
{
	using std::runtime_error::runtime_error;
};
struct InvalidArrayTypeException : Exception
{
	using Exception::Exception;
};
struct InvalidArrayIndexException : Exception
{
	using Exception::Exception;
};
struct NumberOfElementsExceedsMaximumException : Exception
{
	using Exception::Exception;
};

typedef std::vector<size_t> ArrayDimensions;

template<class T>
struct type_of;
#define VF_TYPE(T, E)                                                          \
	template<>                                                                 \
	struct type_of<T>                                                          \
	{                                                                          \
		static constexpr ArrayType value = ArrayType::E;                       \
	};
VF_TYPE(bool, LOGICAL)
VF_TYPE(double, DOUBLE)
VF_TYPE(float, SINGLE)
VF_TYPE(int8_t, INT8)
VF_TYPE(uint8_t, UINT8)
VF_TYPE(int16_t, INT16)
VF_TYPE(uint16_t, UINT16)
VF_TYPE(int32_t, INT32)
VF_TYPE(uint32_t, UINT32)
VF_TYPE(int64_t, INT64)
VF_TYPE(uint64_t, UINT64)
#undef VF_TYPE

struct Impl
{
	ArrayType type = ArrayType::DOUBLE;
	ArrayDimensions dims = { 0, 0 };
	std::variant<std::vector<double>,
	             std::vector<float>,
	             std::vector<uint8_t>,
	             std::vector<int8_t>,
	             std::vector<uint16_t>,
	             std::vector<int16_t>,
	             std::vector<uint32_t>,
	             std::vector<int32_t>,
	             std::vector<uint64_t>,
	             std::vector<int64_t>,
	             std::string>
	    data;
};

struct ElementRef
{
	std::shared_ptr<Impl> p;
	size_t i;
	template<class T,
	         class = typename std::enable_if<std::is_arithmetic<T>::value>::type>
	operator T() const
	{
		return std::visit(
		    [&](auto& v) -> T {
			    if (std::is_same<std::decay_t<decltype(v)>, std::string>::value)
				    throw InvalidArrayTypeException("not a numeric array");
			    if (i >= v.size())
				    throw InvalidArrayIndexException("index out of range");
			    return (T)v[i];
		    },
		    p->data);
	}
};

class Array
{
  public:
	std::shared_ptr<Impl> p = std::make_shared<Impl>();
	Array() = default;
	Array(const Array&) = default;
	Array& operator=(const Array&) = default;
	Array(Array&& o)
	  : p(std::move(o.p))
	{
		o.p = std::make_shared<Impl>();
	}
	Array& operator=(Array&& o)
	{
		if (this != &o) {
			p = std::move(o.p);
			o.p = std::make_shared<Impl>();
		}
		return *this;
	}
	ArrayType getType() const { return p->type; }
	const ArrayDimensions& getDimensions() const { return p->dims; }
	size_t getNumberOfElements() const
	{
		size_t n = 1;
		for (auto d : p->dims)
			n *= d;
		return n;
	}
	bool isEmpty() const { return !getNumberOfElements(); }
	ElementRef operator[](size_t i) const { return ElementRef{ p, i }; }
};

template<class T>
class TypedArray : public Array
{
  public:
	TypedArray(const Array& a)
	  : Array(a)
	{
		check();
	}
	TypedArray(Array&& a)
	  : Array(std::move(a))
	{
		check();
	}
	const T* begin() const { return std::get<std::vector<T>>(p->data).data(); }
	const T* end() const { return begin() + getNumberOfElements(); }
	const T* cbegin() const { return begin(); }
	const T* cend() const { return end(); }
	const T& operator[](size_t i) const { return begin()[i]; }

  private:
	void check() const
	{
		if (p->type != type_of<T>::value)
			throw InvalidArrayTypeException("type mismatch");
	}
};

class CharArray : public Array
{
  public:
	CharArray(const Array& a)
	  : Array(a)
	{
		if (p->type != ArrayType::CHAR)
			throw InvalidArrayTypeException("not a char array");
	}
	std::string toAscii() const { return std::get<std::string>(p->data); }
};

class ArrayFactory
{
  public:
	template<class T,
	         class = typename std::enable_if<std::is_arithmetic<T>::value>::type>
	TypedArray<T> createScalar(T v)
	{
		return createArray<T>({ 1, 1 }, &v, &v + 1);
	}
	Array createScalar(const std::string& s)
	{
		Array a;
		a.p->type = ArrayType::MATLAB_STRING;
		a.p->dims = { 1, 1 };
		a.p->data = s;
		return a;
	}
	template<class T, class It>
	TypedArray<T> createArray(ArrayDimensions dims, It b, It e)
	{
		size_t n = 1;
		for (auto d : dims)
			n *= d;
		std::vector<T> v(b, e);
		if (v.size() > n)
			throw NumberOfElementsExceedsMaximumException("too many elements");
		v.resize(n);
		Array a;
		a.p->type = type_of<T>::value;
		a.p->dims = dims;
		a.p->data = v;
		return a;
	}
	CharArray createCharArray(const std::string& s)
	{
		Array a;
		a.p->type = ArrayType::CHAR;
		a.p->dims = { 1, s.size() };
		a.p->data = s;
		return a;
	}
};

} // data

namespace engine {

struct EngineException : std::runtime_error
{
	using std::runtime_error::runtime_error;
};

class MATLABEngine
{
  public:
	std::vector<data::Array> feval(const std::u16string& fn,
	                               size_t,
	                               const std::vector<data::Array>& args)
	{
		if (fn == u"error")
			throw EngineException(
			    args.empty() ? "" : std::get<std::string>(args[0].p->data));
		return {};
	}
};

} // engine

namespace mex {

class ArgumentList
{
  public:
	std::vector<data::Array>* v;
	ArgumentList(std::vector<data::Array>* a)
	  : v(a)
	{
	}
	size_t size() const { return v->size(); }
	bool empty() const { return v->empty(); }
	data::Array& operator[](size_t i)
	{
		if (i >= v->size())
			throw data::InvalidArrayIndexException("argument out of range");
		return (*v)[i];
	}
};

class Function
{
  public:
	virtual ~Function() = default;
	std::shared_ptr<engine::MATLABEngine> getEngine()
	{
		return std::make_shared<engine::MATLABEngine>();
	}
};

} // mex

} // matlab
