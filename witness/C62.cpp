// the exceptions of the library are caught as their documented bases
#include <dynamix/exception.hpp>
#include <type_traits>
#include <exception>
#include <stdexcept>
using namespace dynamix;
#define ISA(D, B) static_assert(std::is_convertible_v<D*, B*>, #D " is not caught as " #B)
ISA(exception, std::runtime_error); ISA(exception, std::exception);
ISA(domain_error, exception); ISA(type_error, exception); ISA(object_error, exception); ISA(feature_error, exception);
ISA(domain_error, std::exception); ISA(type_error, std::exception); ISA(object_error, std::exception); ISA(feature_error, std::exception);
#define NOTA(D, B) static_assert(!std::is_base_of_v<B, D>, #D " is caught as " #B)
NOTA(domain_error, type_error); NOTA(domain_error, object_error); NOTA(domain_error, feature_error);
NOTA(type_error, domain_error); NOTA(type_error, object_error); NOTA(type_error, feature_error);
NOTA(object_error, domain_error); NOTA(object_error, type_error); NOTA(object_error, feature_error);
NOTA(feature_error, domain_error); NOTA(feature_error, type_error); NOTA(feature_error, object_error);
