// Flavour "noreg": polymorphic archive registration switched off to save build
// time in checks that do not archive polymorphic objects.
#include_next <cereal/types/polymorphic.hpp>
#undef CEREAL_BIND_TO_ARCHIVES
#define CEREAL_BIND_TO_ARCHIVES(...)
#undef CEREAL_REGISTER_POLYMORPHIC_RELATION
#define CEREAL_REGISTER_POLYMORPHIC_RELATION(Base, Derived)
