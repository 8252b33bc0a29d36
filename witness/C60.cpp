// objects with identity: any program which copies one does not compile
#include <dynamix/domain.hpp>
#include <dynamix/domain_traverse.hpp>
#include <dynamix/object.hpp>
#include <dynamix/type.hpp>
#include <dynamix/object_mutation.hpp>
#include <dynamix/type_mutation.hpp>
#include <dynamix/mutate.hpp>
#include <dynamix/common_mixin_info.hpp>
#include <dynamix/common_feature_info.hpp>
#include <dynamix/mixin_info_data.hpp>
#include <dynamix/feature_info_data.hpp>
#include <dynamix/v1compat/mutation_rule.hpp>
#include <dynamix/v1compat/common_mutation_rules.hpp>
#include <dynamix/v1compat/object.hpp>
#include <type_traits>
using namespace dynamix;
#define NOCOPY(...) static_assert(!std::is_copy_constructible_v<__VA_ARGS__>, #__VA_ARGS__ " can be copied"); static_assert(!std::is_copy_assignable_v<__VA_ARGS__>, #__VA_ARGS__ " can be copy-assigned"); \
    static_assert(!std::is_constructible_v<__VA_ARGS__, __VA_ARGS__&>, #__VA_ARGS__ " can be copied from an lvalue")
#define NOMOVE(...) static_assert(!std::is_move_constructible_v<__VA_ARGS__>, #__VA_ARGS__ " can be moved"); static_assert(!std::is_move_assignable_v<__VA_ARGS__>, #__VA_ARGS__ " can be move-assigned")
NOCOPY(domain); NOMOVE(domain);
NOCOPY(type); NOMOVE(type);
NOCOPY(object);
NOCOPY(object_mutation); NOMOVE(object_mutation);
NOCOPY(gradual_mutation); NOMOVE(gradual_mutation);
NOCOPY(domain_traverse); NOMOVE(domain_traverse);
NOCOPY(common_mixin_info); NOMOVE(common_mixin_info);
NOCOPY(common_feature_info); NOMOVE(common_feature_info);
NOCOPY(util::mixin_info_data); NOMOVE(util::mixin_info_data);
NOCOPY(util::feature_info_data); NOMOVE(util::feature_info_data);
NOCOPY(v1compat::mutation_rule); NOMOVE(v1compat::mutation_rule);
NOCOPY(v1compat::object);
NOCOPY(v1compat::mutually_exclusive_mixins); NOCOPY(v1compat::dependent_mixins_dep); NOCOPY(v1compat::dependent_mixins_oneshot);
static_assert(!std::is_copy_assignable_v<type_mutation>, "type_mutation can be assigned to one of another domain");
static_assert(!std::is_default_constructible_v<object_mutation>, "a mutation without an object can be made");
static_assert(!std::is_constructible_v<type, domain&>, "a type can be made by its user");
static_assert(std::is_nothrow_move_constructible_v<object>, "moving an object may throw");
