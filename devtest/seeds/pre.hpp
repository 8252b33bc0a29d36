#include <dynamix/domain.hpp>
#include <dynamix/domain_settings_builder.hpp>
#include <dynamix/mixin_info_data.hpp>
#include <dynamix/feature_info_data.hpp>
#include <dynamix/common_mixin_info.hpp>
#include <dynamix/common_feature_info.hpp>
#include <dynamix/type.hpp>
#include <dynamix/type_class.hpp>
#include <dynamix/type_mutation.hpp>
#include <dynamix/object.hpp>
#include <dynamix/object_of.hpp>
#include <dynamix/object_mutation.hpp>
#include <dynamix/mutate.hpp>
#include <dynamix/exception.hpp>
#include <dynamix/mutation_rule_info.hpp>
#include <dynamix/any.hpp>
#include <dynamix/allocator.hpp>
#include <cstdio>
#include <cstdlib>
#include <string>
#include <vector>
#include <map>
using namespace dynamix;
#define REQ(x) do { if (!(x)) { std::printf("FAILED line %d: %s\n", __LINE__, #x); std::exit(1); } } while (0)
template <typename M> struct mx : public util::mixin_info_data {
    mx(const char* name) { util::mixin_info_data_builder<M>(*this, std::string_view(name)); }
};
