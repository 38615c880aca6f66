#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below and props.json."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = json.load(open(os.path.join(ROOT, "props.json")))
I, H, C = "inputs", "histories", "configurations"
# id, title, statement, over, quantifier text, why tests can't, files, mechanism
T = []
def P(*a):
    T.append(a)

P("C01", "ARGB packing and hex text are lossless",
  "Packing red, green and blue gives an opaque 32-bit colour from which the same components (low eight bits each) come back, and alpha/red/green/blue of any 32-bit colour are its four bytes; opaque means alpha 255. Hex text is RRGGBB in capitals (with a leading # by default or on request) and reads back as the same red, green and blue. Text that is not a hex number is refused, never a panic or a wrong colour.",
  [I], "every component triple, every 32-bit colour, every short text",
  "tests pack a handful of colours; 2^24 colours and arbitrary text are out of their reach",
  ["src/utils/color_utils.rs", "src/utils/string_utils.rs"],
  [("shifts and masks", "ColorUtils::argb_from_rgb, *_from_argb"), ("hex formatting and parsing", "StringUtils")])
P("C02", "L*, Y and sRGB components convert consistently and monotonically",
  "Lightness L* and luminance Y are inverse, strictly increasing maps with 0 and 100 fixed; linearising an 8-bit component and delinearising gives it back, and delinearising any number gives the nearest component, clamped to 0..255. The grey of a lightness is an opaque grey whose lightness is the requested one to 8-bit accuracy, and greys never get darker as lightness grows. The lightness of a colour is the L of its L*a*b* coordinates.",
  [I], "every lightness in 0..100, every luminance, every component and linear value, every colour",
  "tests probe a range of sampled values; monotonicity and inverses are statements about all of them",
  ["src/utils/color_utils.rs"], [("L*/Y formulas, gamma", "ColorUtils::{y_from_lstar, lstar_from_y, linearized, delinearized, argb_from_lstar, lstar_from_argb}")])
P("C03", "XYZ, L*a*b* and linear RGB conversions agree with CIE and invert",
  "The XYZ and L*a*b* coordinates of every colour are the CIE ones for sRGB with the D65 white point. Every opaque colour survives conversion to XYZ, to L*a*b* or to linear RGB and back unchanged, greys have no a* and b*, and coordinates outside the gamut give the opaque colour with clamped components.",
  [I], "every opaque colour and arbitrary coordinates", "tests check primary colours only; the round trip is claimed for all 2^24 colours",
  ["src/utils/color_utils.rs"], [("matrices and lab f", "ColorUtils::{xyz_from_argb, argb_from_xyz, lab_from_argb, argb_from_lab, argb_from_linrgb}")])
P("C04", "Colour coordinates (CAM16, CAM16-UCS, HCT) are exact and invert",
  "For every opaque colour the CAM16 and CAM16-UCS coordinates are those of the CAM16 model under the default viewing conditions: hue in [0,360), chroma not negative, lightness 0..100, everything finite. Going to CAM16, to JCH, to UCS or to HCT and back gives the same colour, HCT's hue and chroma are CAM16's and its tone is L*. The distance of two colours is symmetric, zero exactly for equal colours, and the CAM16-UCS one.",
  [I], "every opaque colour, pairs of colours, and coordinates in and out of gamut", "tests compare a few primaries to constants; all other colours are untested",
  ["src/hct/cam16.rs", "src/hct/hct.rs"], [("forward and inverse CAM16", "Cam16::{from_xyz_in_viewing_conditions, from_jch, from_ucs, viewed, distance}"), ("HCT construction", "Hct::from_int")])
P("C05", "Viewing conditions follow CAM16 and colours survive them",
  "Viewing conditions built from white point, adapting luminance, background lightness, surround and discounting have the parameters the CAM16 model derives from these (a non-positive adapting luminance or missing argument standing for the default), and the standard conditions are the sRGB ones. Seeing a colour under given conditions and showing it under the same ones gives that colour back. Any XYZ stimulus has the model's coordinates under any conditions (hue in [0, 360)) and comes back from them. A colour recast into other conditions is the HCT colour of the XYZ it shows there.",
  [C, I], "every combination of viewing condition parameters, for every colour", "tests use the default conditions only",
  ["src/hct/viewing_conditions.rs", "src/hct/cam16.rs", "src/hct/hct.rs"], [("derived parameters", "ViewingConditions::make"), ("recasting", "Hct::in_viewing_conditions")])
P("C06", "HCT requests are met: tone exactly, hue kept, chroma as close as possible",
  "For every requested hue, chroma and tone the resulting opaque colour has the requested tone (to 8-bit accuracy), its hue is the requested one wherever it has enough chroma to show it, and its chroma is the requested one or the most the gamut has there, never notably more. A request without chroma, or at tone 0 or 100, gives a grey, black or white. The hue, chroma and tone reported are those of the resulting colour.",
  [I], "every hue (any real number of degrees), chroma >= 0 and tone, including out-of-range ones", "the round-trip test walks a coarse grid with wide tolerances",
  ["src/hct/hct.rs", "src/hct/src/hct_solver.rs"], [("Newton search and bisection along the gamut boundary", "HctSolver::{solve_to_int, find_result_by_j, bisect_to_limit}")])
P("C07", "HCT objects stay consistent under any sequence of setters",
  "After any sequence of hue, chroma and tone assignments an HCT object's colour, hue, chroma and tone belong to one and the same real colour: the one a fresh HCT object of its then hue, chroma and tone with the assigned coordinate replaced would have. Assigning keeps the tone (or sets it as asked) and the hue where there is chroma to show it. Clones are independent, and equality and hashing are those of the colour.",
  [H], "every start colour and every finite sequence of assignments and clones", "tests set each coordinate once",
  ["src/hct/hct.rs"], [("setters re-solve and refresh all fields", "Hct::{set_hue, set_chroma, set_tone, set_internal_state}")])
P("C08", "Contrast ratio is WCAG's: symmetric, monotonic, within 1..21",
  "The contrast ratio of two tones is (Y1+5)/(Y2+5) of the lighter over the darker. It is symmetric, 1 for equal tones, never outside 1..21, grows as one tone moves away from the other, and tones outside 0..100 count as 0 or 100.",
  [I], "all pairs of tones, in and out of range", "one pair is tested",
  ["src/contrast/contrast.rs"], [("ratio of luminances", "Contrast::{ratio_of_tones, ratio_of_ys}")])
P("C09", "Lighter/darker tone finders give the closest tone that has the contrast",
  "For a tone in 0..100 and a ratio, the lighter (darker) tone returned is within 0..100, on that side, truly has the contrast, and is the closest such tone up to the gamut-mapping margin of 0.4; -1 is returned exactly if there is none or the tone is invalid. The unsafe finders return the same, with 100 (0) in place of -1.",
  [I], "all tones and ratios, valid or not", "a dozen pairs are tested",
  ["src/contrast/contrast.rs"], [("inverse contrast formula", "Contrast::{lighter, darker, lighter_unsafe, darker_unsafe}")])
P("C10", "A tonal palette shows its hue and chroma at every tone; key colour is best",
  "At every tone, whole or fractional, a tonal palette's colour is the HCT colour of the palette's hue and chroma at that tone. Its key colour is, among whole tones searched outwards from 50, the first whose chroma rounds to the palette's, or else the one that comes closest. A palette made from an HCT colour keeps that colour's hue and chroma and has it as key colour.",
  [I], "every hue, chroma and tone", "tests check one palette of blue",
  ["src/palettes/tonal_palette.rs"], [("colour at tone", "TonalPalette::{get, get_hct}"), ("key colour search", "TonalPalette::create_key_color")])
P("C11", "A tonal palette's answers never depend on earlier questions",
  "Whatever a palette or its clones were asked before, in any order, the colour at a tone, the list of common tones, hue, chroma, key colour, equality, hash and text are those of a fresh palette of the same origin. Questions about fractional tones neither use nor disturb answers for whole ones.",
  [H], "every sequence of questions to a palette and its clone, for palettes made from hue and chroma and from lists", "tests ask each palette each thing once",
  ["src/palettes/tonal_palette.rs"], [("per-tone cache", "TonalPalette::{get, get_hct, _cache}")])
P("C12", "Palette lists round-trip; equality, hash and text agree",
  "A palette made from a list of 13 colours returns exactly that list and those colours at the common tones, takes hue and chroma from its most colourful member that is not nearly white, and generates other tones from them. Palettes made alike are equal exactly if their hue and chroma (or lists) are, a palette equals the one made from its list, and equal palettes hash the same, however made; the text names what the palette was made from. A core palette becomes a list of its five palettes' colours in order and is equal to the one read back.",
  [I], "every list of colours, every pair of palettes, every core palette", "one palette and its list are tested",
  ["src/palettes/tonal_palette.rs", "src/palettes/core_palette.rs"], [("list form", "TonalPalette::{from_list, as_list}"), ("equality and hash", "PartialEq, Hash"), ("core list", "CorePalette::{from_list, as_list}")])
P("C13", "Core palettes and light/dark schemes map source colours as documented",
  "The core palette of a colour (plain or content) has for its primary, secondary, tertiary, neutral, neutral variant and error palettes the hue and chroma the Material rules give. Every role of the light and dark scheme built from it is the colour of the rules' palette at the rules' tone.",
  [I, C], "every source colour, plain and content, light and dark, all 29 roles", "two source colours are tested",
  ["src/palettes/core_palette.rs", "src/scheme/scheme.rs"], [("palette table", "CorePalette::{of, content_of}"), ("role table", "Scheme::{light_from_core_palette, dark_from_core_palette}")])
P("C14", "Dynamic colours reach the contrast their curve asks for",
  "A dynamic colour with one background, no pair and that is no background itself has at every contrast level the contrast of its curve with its background, or (within 0.1) all the contrast there is; with normal or raised contrast a wished tone that is good enough is kept. On two backgrounds it contrasts with both wherever the preferred side allows. This holds of every Material role in every variant, mode and level, and the colour shown has the role's tone.",
  [C, I], "all backgrounds, wished tones, curves and contrast levels; all schemes", "tests sample few colours and levels, roles pairwise",
  ["src/dynamiccolor/dynamic_color.rs", "src/contrast/contrast.rs", "src/dynamiccolor/material_dynamic_colors.rs"], [("tone resolution", "DynamicColor::{get_tone, foreground_tone}")])
P("C15", "Tone-delta pairs keep their distance and avoid awkward tones",
  "The two colours of a tone-delta pair are always at least the given distance (up to 40) apart in the given direction for the mode, at every contrast level. Neither ever has a tone from 50 up to (not including) 60, and both are within 0..100. Both members of the pair compute the same two tones, and otherwise each keeps the contrast-adjusted tone it wished for.",
  [C, I], "all pairs of wished tones, backgrounds, curves, distances up to 30, polarities, modes, levels; all Material pairs", "tests check a few schemes' tones",
  ["src/dynamiccolor/dynamic_color.rs", "src/dynamiccolor/src/tone_delta_pair.rs"], [("pair branch", "DynamicColor::get_tone")])
P("C16", "Every Material role has the specified tone and palette in every scheme",
  "For each of the 54 Material colour roles, in every scheme variant, light or dark, at every contrast level and for every source colour, the tone is the one the role table (palette, wished tone, background, curve, pair) prescribes and the colour is that of the role's palette at that tone. Asking the scheme, the role or its HCT colour gives the same colour. Each role carries its name and says whether it is a background.",
  [C, I], "9 variants x 2 modes x all contrast levels x all source colours x 54 roles, also with custom palettes", "tests pin a few dozen combinations",
  ["src/dynamiccolor/material_dynamic_colors.rs", "src/dynamiccolor/dynamic_color.rs", "src/dynamiccolor/dynamic_scheme.rs"], [("role table", "MaterialDynamicColors::*"), ("getters", "DynamicScheme::get_*")])
P("C17", "A dynamic colour answers each scheme the same whatever it was asked before",
  "A dynamic colour object asked about any sequence of schemes, repeated or not, gives for each the colour and tone a fresh object gives; the scheme's own getter agrees. Schemes that differ in variant, source, mode, contrast level or any palette are different, and a scheme equals its clone and its twin. Equal schemes hash the same.",
  [H], "every sequence of schemes, long enough to fill and clear the memory several times", "tests ask once per object",
  ["src/dynamiccolor/dynamic_color.rs", "src/dynamiccolor/dynamic_scheme.rs"], [("cache keyed by scheme", "DynamicColor::get_hct, _hct_cache"), ("scheme equality and hash", "DynamicScheme PartialEq, Hash")])
P("C18", "Scheme variants derive the right palettes from the source colour",
  "Each of the nine scheme variants gives its six palettes the hue and chroma its design prescribes from the source colour (fixed chroma and hue rotations, piecewise rotations by hue, or proportional chroma with a never-disliked analogous or complementary third colour), and records variant, mode, level and source as given. Hue rotation adds the amount of the stretch of hues strictly containing the source hue, none on a breakpoint, and yields a hue in [0, 360).",
  [I, C], "every source colour, variant, mode and level; every table of hues and rotations", "tests use one or two source colours per variant",
  ["src/scheme/", "src/dynamiccolor/dynamic_scheme.rs"], [("variant constructors", "Scheme*::new"), ("piecewise rotation", "DynamicScheme::get_rotated_hue")])
P("C19", "Monochrome schemes are grey and independent of the source colour's hue",
  "In a monochrome scheme every role but the error ones is a pure grey (equal red, green and blue), for every source colour, mode and contrast level. The roles' tones depend on mode and level only.",
  [I, C], "every source colour, mode and contrast level", "tests use one source colour at level 0",
  ["src/scheme/scheme_monochrome.rs", "src/dynamiccolor/material_dynamic_colors.rs", "src/hct/src/hct_solver.rs"], [("chroma 0 palettes", "SchemeMonochrome::new"), ("monochrome branches", "MaterialDynamicColors::*")])
P("C20", "Quantizers account for every pixel and never exceed the colour budget",
  "Quantizing any list of opaque pixels by k-means (Wsmeans, Celebi) yields at least one and at most the requested number of opaque colours whose counts are positive and add up to the number of pixels. On request, and only then, every distinct pixel is mapped to one of the result's colours, each result colour's count is the number of pixels mapped to it, and asking for the mapping changes nothing else. The Wu quantizer yields at least one (if any pixel is opaque) and at most the requested number of opaque colours. Counting by map gives exactly each opaque pixel's number of occurrences and ignores pixels that are not opaque, as does Wu.",
  [I], "every list of pixels, every colour budget from 1 up, with and without pixel mapping", "tests quantize lists of a few pixels",
  ["src/quantize/"], [("population bookkeeping", "QuantizerWsmeans::quantize"), ("counting", "QuantizerMap::quantize")])
P("C21", "Quantization and its parts are deterministic and ignore hidden state",
  "Quantizing the same pixels twice gives identical results, in the same process, on a reused or a fresh quantizer, and in another process. The result of a Wu quantizer does not depend on the order of the pixels nor on what was quantized before with it.",
  [H, I], "every list of pixels and permutation, every sequence of uses, any hash seed", "tests compare single runs of tiny inputs",
  ["src/quantize/quantizer_celebi.rs", "src/quantize/quantizer_wu.rs", "src/quantize/quantizer_wsmeans.rs"], [("sorted starting clusters", "QuantizerCelebi::quantize"), ("fresh histogram per run", "QuantizerWu::construct_histogram")])
P("C22", "Wu quantization cuts colour space into boxes averaging their pixels",
  "The Wu quantizer returns distinct box averages: each colour is the rounded mean of the pixels in one box of a partition of the 32x32x32 colour cube obtained by successive variance-maximising cuts, every opaque pixel lies in exactly one box, and there are at most as many boxes as colours asked for. With at least as many colours allowed as distinct 5-bit cells in use, every used cell keeps its own mean colour.",
  [I], "every list of pixels and every colour budget", "tests quantize a few solid images",
  ["src/quantize/quantizer_wu.rs"], [("moments and cuts", "QuantizerWu::{compute_moments, create_boxes, maximize, cut}"), ("box means", "QuantizerWu::create_result")])
P("C23", "K-means quantization: colours are means of the pixels mapped to them",
  "Each colour returned by k-means (Wsmeans, and Celebi which starts it from Wu's colours in ascending order) is the L*a*b* mean of the pixels mapped to it, rounded to a colour. The result is the one that weighted k-means reaches from the given starting clusters (filled up with distinct pixels of the image where there are fewer than clusters): in each round a pixel moves to the nearest cluster among those not pruned by distance, clusters move to their pixels' mean, and rounds end after the given number (5 by default) or when no pixel moves. An image with no more distinct colours than the budget and exact starting clusters keeps its colours, and more rounds never make the result worse.",
  [I], "every list of pixels, budget, starting clusters and number of iterations", "tests quantize a few solid images",
  ["src/quantize/quantizer_wsmeans.rs", "src/quantize/quantizer_celebi.rs", "src/quantize/src/point_provider_lab.rs"], [("assignment and update steps", "QuantizerWsmeans::quantize")])
P("C24", "Scoring ranks suitable colours, spreads hues and never comes back empty",
  "Scoring a map of colours to populations returns at least one and at most the desired number of colours, all from the map (or the fallback alone, exactly if none is suitable), best first: by share of pixels within the hue's neighbourhood and by chroma around 48. With filtering, colours with chroma below 5 or 1% share or less never appear. The hues chosen are as far apart as possible: for the widest separation from 90 down to 15 degrees that gives enough colours, each chosen colour is the best-scoring one at least that far from those before it.",
  [I], "every map of colours to populations, every desired count, fallback and filter setting", "tests score maps of two to five colours",
  ["src/score/score.rs"], [("excited proportions, cutoffs, score", "Score::score"), ("greedy separation loop", "Score::score")])
P("C25", "Temperature: complement and analogous colours are right, in any order of use",
  "For every input colour, relative temperatures run from 0 (coldest of its hue circle) to 1 (warmest), the complement is the colour across the circle whose relative temperature is closest to one minus the input's, and analogous colours are spaced evenly in temperature around the input, which is among them. Every query gives the same answer whatever was asked of the cache before. No input colour makes a query fail.",
  [I, H], "every input colour, count and number of divisions, every order of queries", "tests use five primaries and one query order",
  ["src/temperature/temperature_cache.rs"], [("lazy caches", "TemperatureCache::{get_hcts_by_hue, get_temps_by_hct, get_hcts_by_temp}"), ("arc search", "TemperatureCache::get_complement"), ("equal temperature steps", "TemperatureCache::analogous")])
P("C26", "Disliked colours are recognised and fixed, others left alone",
  "A colour is disliked exactly if it is a dark yellow-green that is not neutral (hue rounds to 90..111, chroma to more than 16, tone to less than 65). Fixing returns every other colour unchanged and a disliked one lightened to tone 70 with its hue and chroma kept; a fixed colour is never disliked and fixing again changes nothing.",
  [I], "every colour", "tests check some skin tones and five listed colours",
  ["src/dislike/dislike_analyzer.rs"], [("rounded thresholds", "DislikeAnalyzer::{is_disliked, fix_if_disliked}")])
P("C27", "Blending keeps tone, moves hue the short way, and has exact end points",
  "Harmonising turns a colour's hue towards the other's by half their distance but at most 15 degrees, the short way round, keeping chroma and tone. Blending in CAM16-UCS by 0 and 1 gives the first and second colour and in between the colour of the interpolated coordinates; a hue blend takes the hue of that blend and keeps chroma and tone of the first.",
  [I], "every pair of colours and every amount in 0..1", "tests check a dozen primary pairs",
  ["src/blend/blend.rs"], [("clamped rotation", "Blend::harmonize"), ("interpolation", "Blend::{cam16_ucs, hct_hue}")])
P("C28", "Angle arithmetic, interpolation, clamping and matrices are right everywhere",
  "Sanitising any angle gives the same direction in [0, 360), twice the same as once, for whole and real degrees. The distance of two angles is the shorter way round (0..180, symmetric) and turning by it in the direction given arrives; opposite directions give 1. Interpolation meets its end points and stays between them, clamping and sign are exact, and matrix products are the algebraic ones.",
  [I], "every finite angle (including negative, tiny and huge ones) and number", "tests check a few rotations",
  ["src/utils/math_utils.rs"], [("modular arithmetic", "MathUtils::*")])
P("C29", "Contrast curves interpolate their four values without jumps",
  "A contrast curve gives its four values at levels -1, 0, 0.5 and 1, interpolates linearly between them, is constant outside, never leaves the range of its values, and grows if they do.",
  [I], "every four values and every level", "tests evaluate material curves at the named levels",
  ["src/dynamiccolor/src/contrast_curve.rs"], [("piecewise linear", "ContrastCurve::get_contrast")])
P("C30", "From image to theme: the whole pipeline always succeeds and is legible",
  "From any non-empty list of opaque pixels, quantizing, scoring the result and building any scheme from any colour chosen never fails and ends in a theme in which every role is an opaque colour and text roles contrast with their backgrounds as their curves demand. The chosen colours come from the quantized ones (or are the fallback), and repeating the pipeline gives the same theme.",
  [I, C], "every list of pixels, budget, variant, mode and level", "no test runs the pipeline",
  ["src/quantize/quantizer_celebi.rs", "src/score/score.rs", "src/scheme/", "src/dynamiccolor/"], [("composition of all parts", "QuantizerCelebi, Score, Scheme*, MaterialDynamicColors")])

NOTES = {
 "hist": "TLC enumerates all operation histories up to a depth on the specified state machine, proves the promise for the model, and every enumerated history (plus longer random ones) is replayed on the real object; TLC validates each observation.",
 "call": "TLC checks the property on the specification over finite grids; recorded calls of the real code (systematic, boundary-seeking and random inputs, plus every call out of a large scan that a frozen copy of the code disagrees with) are validated line by line by TLC against the specification.",
}
def main():
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for (i, title, st, over, qt, why, files, mech) in T:
            if i not in PROPS:
                continue
            assert len(title) <= 80, (i, len(title))
            f.write(json.dumps({"id": i, "title": title, "statement": st, "quantifier": {"over": over, "text": qt},
                                "why_tests_cant": why,
                                "anchors": {"files": files, "mechanism": [{"name": a, "where": b} for a, b in mech],
                                            "observe_at": ["public API"], "hook_needed": None}}) + "\n")
    checks = []
    for i in sorted(PROPS):
        hist = PROPS[i]["design"][0].get("cfg_thorough")
        checks.append({"property": i, "quick_cmd": "python3 check.py %s --tier quick" % i,
                       "thorough_cmd": "python3 check.py %s --tier thorough" % i,
                       "technique": "TLA+ specification checked with TLC; " + ("replay of TLC-generated histories and " if hist else "") + "TLC validation of traces recorded from the real code",
                       "level": "model_checking",
                       "level_note": NOTES["hist" if hist else "call"] + " Bounded: inputs are enumerated or sampled, not all of them. Trusted: TLC, java/Real64.java (binary64 arithmetic), the harness's recording."})
    json.dump({"version": 1, "setup_cmd": "python3 check.py --setup", "checks": checks, "not_applicable": []},
              open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
main()
