// Includes the header under test and names its tags uniformly.
#ifndef VP_HDR_HPP
#define VP_HDR_HPP
#include <initializer_list>
#include <memory>
#include <string>
#include <utility>

#ifdef VP_HEADER
#include VP_HEADER
#endif
#ifdef VP_HEADER2
#include VP_HEADER2
#endif
#if VP_CXX14
#define VP_IN_PLACE xyz::in_place_t{}
#define VP_IN_PLACE_TYPE(...) xyz::in_place_type_t<__VA_ARGS__>{}
#else
#define VP_IN_PLACE std::in_place
#define VP_IN_PLACE_TYPE(...) std::in_place_type<__VA_ARGS__>
#endif
#endif
