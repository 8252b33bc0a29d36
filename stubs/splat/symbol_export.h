#pragma once
/* stand-in for iboB/splat (not available offline): behaviour-relevant part only */
#define SYMBOL_EXPORT __attribute__((__visibility__("default")))
#define SYMBOL_IMPORT
