// library encoding -> reference encoding
#pragma once
#include "inc.hpp"
namespace {
template <typename E> struct def;
#define DEF(X, R) template <> struct def<cthash::encoding::X> { static constexpr ref::Enc r = ref::R; };
DEF(base64, BASE64) DEF(base64_no_padding, BASE64_NP) DEF(base64url, BASE64URL) DEF(base32, BASE32) DEF(base32_no_padding, BASE32_NP) DEF(z_base32, ZBASE32)
DEF(base16, BASE16) DEF(base16_uppercase, BASE16UP) DEF(base8, BASE8) DEF(base4, BASE4) DEF(base2, BASE2)
}
