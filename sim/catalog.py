"""What the library offers, written down by hand: classes, data arguments, parameters, accessors, wrappers.

`lb` (lookback) gives, for finite-memory outputs, the number of most recent bars that determine a value;
`decay` marks exponentially smoothed outputs (their memory of a wrong bar fades geometrically).
"""
H, L, C, V = "high", "low", "close", "volume"


def W(d, lo=1):  # integer window with default d
    return ("w", d, lo)


def K(*opts):
    return ("k",) + opts


# name -> (module, data args, params, accessors)
CLASSES = {
    "AccDistIndexIndicator": ("volume", [H, L, C, V], {}, ["acc_dist_index"]),
    "ChaikinMoneyFlowIndicator": ("volume", [H, L, C, V], {"window": W(20)}, ["chaikin_money_flow"]),
    "EaseOfMovementIndicator": ("volume", [H, L, V], {"window": W(14)}, ["ease_of_movement", "sma_ease_of_movement"]),
    "ForceIndexIndicator": ("volume", [C, V], {"window": W(13)}, ["force_index"]),
    "MFIIndicator": ("volume", [H, L, C, V], {"window": W(14)}, ["money_flow_index"]),
    "NegativeVolumeIndexIndicator": ("volume", [C, V], {}, ["negative_volume_index"]),
    "OnBalanceVolumeIndicator": ("volume", [C, V], {}, ["on_balance_volume"]),
    "VolumePriceTrendIndicator": ("volume", [C, V], {"smoothing_factor": K(None, None, 1, 3, 7, 2, 19), "dropnans": K(False, False, False, True)}, ["volume_price_trend"]),
    "VolumeWeightedAveragePrice": ("volume", [H, L, C, V], {"window": W(14)}, ["volume_weighted_average_price"]),
    "AverageTrueRange": ("volatility", [H, L, C], {"window": W(14)}, ["average_true_range"]),
    "BollingerBands": ("volatility", [C], {"window": W(20), "window_dev": K(2, 2, 1, 3, 1.5, 2.25, 2.0137)}, ["bollinger_mavg", "bollinger_hband", "bollinger_lband", "bollinger_wband", "bollinger_pband", "bollinger_hband_indicator", "bollinger_lband_indicator"]),
    "DonchianChannel": ("volatility", [H, L, C], {"window": W(20), "offset": K(0, 0, 0, 1, 2, 5, 13)}, ["donchian_channel_hband", "donchian_channel_lband", "donchian_channel_mband", "donchian_channel_wband", "donchian_channel_pband"]),
    "KeltnerChannel": ("volatility", [H, L, C], {"window": W(20), "window_atr": W(10), "original_version": K(True, False), "multiplier": K(2, 1, 3, 1.5, 0.75, 1.2719)}, ["keltner_channel_mband", "keltner_channel_hband", "keltner_channel_lband", "keltner_channel_wband", "keltner_channel_pband", "keltner_channel_hband_indicator", "keltner_channel_lband_indicator"]),
    "UlcerIndex": ("volatility", [C], {"window": W(14)}, ["ulcer_index"]),
    "ADXIndicator": ("trend", [H, L, C], {"window": W(14)}, ["adx", "adx_pos", "adx_neg"]),
    "AroonIndicator": ("trend", [H, L], {"window": W(25)}, ["aroon_up", "aroon_down", "aroon_indicator"]),
    "CCIIndicator": ("trend", [H, L, C], {"window": W(20), "constant": K(0.015, 0.015, 0.02, 0.5, 1, 0.01531)}, ["cci"]),
    "DPOIndicator": ("trend", [C], {"window": W(20)}, ["dpo"]),
    "EMAIndicator": ("trend", [C], {"window": W(14)}, ["ema_indicator"]),
    "IchimokuIndicator": ("trend", [H, L], {"window1": W(9), "window2": W(26), "window3": W(52), "visual": K(False, True)}, ["ichimoku_conversion_line", "ichimoku_base_line", "ichimoku_a", "ichimoku_b"]),
    "KSTIndicator": ("trend", [C], {"roc1": W(10), "roc2": W(15), "roc3": W(20), "roc4": W(30), "window1": W(10), "window2": W(10), "window3": W(10), "window4": W(15), "nsig": W(9)}, ["kst", "kst_sig", "kst_diff"]),
    "MACD": ("trend", [C], {"window_slow": W(26), "window_fast": W(12), "window_sign": W(9)}, ["macd", "macd_signal", "macd_diff"]),
    "MassIndex": ("trend", [H, L], {"window_fast": W(9), "window_slow": W(25)}, ["mass_index"]),
    "PSARIndicator": ("trend", [H, L, C], {"step": K(0.02, 0.02, 0.01, 0.05, 0.3, 0.007, 0.0173), "max_step": K(0.2, 0.2, 0.1, 0.3, 0.05, 0.6, 0.2345)}, ["psar", "psar_up", "psar_down", "psar_up_indicator", "psar_down_indicator"]),
    "SMAIndicator": ("trend", [C], {"window": W(12)}, ["sma_indicator"]),
    "STCIndicator": ("trend", [C], {"window_slow": W(50), "window_fast": W(23), "cycle": W(10), "smooth1": W(3), "smooth2": W(3)}, ["stc"]),
    "TRIXIndicator": ("trend", [C], {"window": W(15)}, ["trix"]),
    "VortexIndicator": ("trend", [H, L, C], {"window": W(14)}, ["vortex_indicator_pos", "vortex_indicator_neg", "vortex_indicator_diff"]),
    "WMAIndicator": ("trend", [C], {"window": W(9)}, ["wma"]),
    "AwesomeOscillatorIndicator": ("momentum", [H, L], {"window1": W(5), "window2": W(34)}, ["awesome_oscillator"]),
    "KAMAIndicator": ("momentum", [C], {"window": W(10), "pow1": K(2, 2, 3, 5, 1, 12), "pow2": K(30, 30, 10, 20, 3, 45)}, ["kama"]),
    "PercentagePriceOscillator": ("momentum", [C], {"window_slow": W(26), "window_fast": W(12), "window_sign": W(9)}, ["ppo", "ppo_signal", "ppo_hist"]),
    "PercentageVolumeOscillator": ("momentum", [V], {"window_slow": W(26), "window_fast": W(12), "window_sign": W(9)}, ["pvo", "pvo_signal", "pvo_hist"]),
    "ROCIndicator": ("momentum", [C], {"window": W(12)}, ["roc"]),
    "RSIIndicator": ("momentum", [C], {"window": W(14)}, ["rsi"]),
    "StochRSIIndicator": ("momentum", [C], {"window": W(14), "smooth1": W(3), "smooth2": W(3)}, ["stochrsi", "stochrsi_k", "stochrsi_d"]),
    "StochasticOscillator": ("momentum", [H, L, C], {"window": W(14), "smooth_window": W(3)}, ["stoch", "stoch_signal"]),
    "TSIIndicator": ("momentum", [C], {"window_slow": W(25), "window_fast": W(13)}, ["tsi"]),
    "UltimateOscillator": ("momentum", [H, L, C], {"window1": W(7), "window2": W(14), "window3": W(28), "weight1": K(4.0, 4.0, 1.0, 2.5, 0.7, 0.25), "weight2": K(2.0, 2.0, 3.0, 1.5, 0, 0.125), "weight3": K(1.0, 1.0, 2.0, 0.4, 5, 0.0625)}, ["ultimate_oscillator"]),
    "WilliamsRIndicator": ("momentum", [H, L, C], {"lbp": W(14)}, ["williams_r"]),
    "CumulativeReturnIndicator": ("others", [C], {}, ["cumulative_return"]),
    "DailyLogReturnIndicator": ("others", [C], {}, ["daily_log_return"]),
    "DailyReturnIndicator": ("others", [C], {}, ["daily_return"]),
}

# function wrappers: name -> (module, class, accessor, accepted parameters)
_F = {
    "volume": {
        "acc_dist_index": ("AccDistIndexIndicator", "acc_dist_index"), "chaikin_money_flow": ("ChaikinMoneyFlowIndicator", "chaikin_money_flow"),
        "ease_of_movement": ("EaseOfMovementIndicator", "ease_of_movement"), "force_index": ("ForceIndexIndicator", "force_index"),
        "money_flow_index": ("MFIIndicator", "money_flow_index"), "negative_volume_index": ("NegativeVolumeIndexIndicator", "negative_volume_index"),
        "on_balance_volume": ("OnBalanceVolumeIndicator", "on_balance_volume"), "sma_ease_of_movement": ("EaseOfMovementIndicator", "sma_ease_of_movement"),
        "volume_price_trend": ("VolumePriceTrendIndicator", "volume_price_trend"), "volume_weighted_average_price": ("VolumeWeightedAveragePrice", "volume_weighted_average_price")},
    "volatility": dict(
        [("average_true_range", ("AverageTrueRange", "average_true_range")), ("bollinger_mavg", ("BollingerBands", "bollinger_mavg", ["window"])), ("ulcer_index", ("UlcerIndex", "ulcer_index"))]
        + [(a, ("BollingerBands", a)) for a in CLASSES["BollingerBands"][3][1:]]
        + [(a, ("DonchianChannel", a)) for a in CLASSES["DonchianChannel"][3]]
        + [(a, ("KeltnerChannel", a, ["window", "window_atr", "original_version"])) for a in CLASSES["KeltnerChannel"][3]]),
    "trend": dict(
        [(a, ("ADXIndicator", a)) for a in ("adx", "adx_pos", "adx_neg")]
        + [("aroon_up", ("AroonIndicator", "aroon_up")), ("aroon_down", ("AroonIndicator", "aroon_down")), ("cci", ("CCIIndicator", "cci")), ("dpo", ("DPOIndicator", "dpo")),
           ("ema_indicator", ("EMAIndicator", "ema_indicator")),
           ("ichimoku_a", ("IchimokuIndicator", "ichimoku_a", ["window1", "window2", "visual"])), ("ichimoku_b", ("IchimokuIndicator", "ichimoku_b", ["window2", "window3", "visual"])),
           ("ichimoku_base_line", ("IchimokuIndicator", "ichimoku_base_line", ["window1", "window2", "visual"])), ("ichimoku_conversion_line", ("IchimokuIndicator", "ichimoku_conversion_line", ["window1", "window2", "visual"])),
           ("kst", ("KSTIndicator", "kst", ["roc1", "roc2", "roc3", "roc4", "window1", "window2", "window3", "window4"])), ("kst_sig", ("KSTIndicator", "kst_sig")),
           ("macd", ("MACD", "macd", ["window_slow", "window_fast"])), ("macd_diff", ("MACD", "macd_diff")), ("macd_signal", ("MACD", "macd_signal")), ("mass_index", ("MassIndex", "mass_index"))]
        + [(a, ("PSARIndicator", a)) for a in ("psar_up", "psar_down", "psar_up_indicator", "psar_down_indicator")]
        + [("sma_indicator", ("SMAIndicator", "sma_indicator")), ("stc", ("STCIndicator", "stc")), ("trix", ("TRIXIndicator", "trix")), ("vortex_indicator_neg", ("VortexIndicator", "vortex_indicator_neg")),
           ("vortex_indicator_pos", ("VortexIndicator", "vortex_indicator_pos")), ("wma_indicator", ("WMAIndicator", "wma"))]),
    "momentum": {
        "awesome_oscillator": ("AwesomeOscillatorIndicator", "awesome_oscillator"), "kama": ("KAMAIndicator", "kama"), "ppo": ("PercentagePriceOscillator", "ppo"),
        "ppo_hist": ("PercentagePriceOscillator", "ppo_hist"), "ppo_signal": ("PercentagePriceOscillator", "ppo_signal"), "pvo": ("PercentageVolumeOscillator", "pvo"),
        "pvo_hist": ("PercentageVolumeOscillator", "pvo_hist"), "pvo_signal": ("PercentageVolumeOscillator", "pvo_signal"), "roc": ("ROCIndicator", "roc"), "rsi": ("RSIIndicator", "rsi"),
        "stoch": ("StochasticOscillator", "stoch"), "stoch_signal": ("StochasticOscillator", "stoch_signal"), "stochrsi": ("StochRSIIndicator", "stochrsi"),
        "stochrsi_d": ("StochRSIIndicator", "stochrsi_d"), "stochrsi_k": ("StochRSIIndicator", "stochrsi_k"), "tsi": ("TSIIndicator", "tsi"),
        "ultimate_oscillator": ("UltimateOscillator", "ultimate_oscillator"), "williams_r": ("WilliamsRIndicator", "williams_r")},
    "others": {a: (c, a) for a, c in (("cumulative_return", "CumulativeReturnIndicator"), ("daily_log_return", "DailyLogReturnIndicator"), ("daily_return", "DailyReturnIndicator"))},
}
FUNCS = {}
for _m, _d in _F.items():
    for _n, _t in _d.items():
        FUNCS[_n] = (_m, _t[0], _t[1], list(_t[2]) if len(_t) > 2 else list(CLASSES[_t[0]][2]))

GROUPS = {
    "add_volume_ta": (["high", "low", "close", "volume"], True), "add_volatility_ta": (["high", "low", "close"], True),
    "add_trend_ta": (["high", "low", "close"], True), "add_momentum_ta": (["high", "low", "close", "volume"], True),
    "add_others_ta": (["close"], False), "add_all_ta_features": (["open", "high", "low", "close", "volume"], True),
}
CLASS_NAMES = sorted(CLASSES)
FUNC_NAMES = sorted(FUNCS)
FUNCS_OF = {}
for _n, (_m, _c, _a, _p) in FUNCS.items():
    FUNCS_OF.setdefault(_c, []).append(_n)
COST = {"PSARIndicator": 8, "WMAIndicator": 3, "ADXIndicator": 3, "KAMAIndicator": 2, "AroonIndicator": 2}


def _wide(r, v, lo, scale):
    from . import guide
    return guide.number(r, v, lo, getattr(scale, "n", scale))


def gen_params(r, cls, names=None, scale=40, style=None, safe=False):
    """explicit parameters for a class (or the subset a function takes); {} = library defaults

    style: 'default' | 'small' | 'any' | 'odd'."""
    spec = CLASSES[cls][2]
    names = list(spec) if names is None else names
    style = style or r.choice(["default", "small", "small", "any", "any", "any"])
    if style == "any" and hasattr(scale, "n") and r.random() < 0.12:
        style = "wide"
    out = {}
    for k in names:
        s = spec[k]
        if cls == "VolumePriceTrendIndicator" and k == "dropnans" and safe:
            continue
        if style == "default" and not (cls == "SMAIndicator"):
            if r.random() < 0.85:
                continue
        if s[0] == "k":
            v = r.choice(s[1:])
            if type(v) is float and v and r.random() < 0.12:  # not a round number: three decimals are not enough to write it down
                v = round(v * r.uniform(0.85, 1.15), 7)
            if v is not None:
                out[k] = v
        else:
            d, lo = s[1], s[2]
            if style == "default":
                out[k] = d
            elif style == "small":
                out[k] = r.randint(max(lo, 2), 6) if r.random() < 0.9 else lo
            elif style == "wide":
                out[k] = r.randint(2, max(2, scale.n))
            else:
                out[k] = max(lo, min(scale, r.choice([d, r.randint(2, max(3, d)), r.randint(2, max(3, 2 * d)), d + 1])))
            out[k] = _wide(r, out[k], lo, scale)
    return out


def lookback(cls, acc, p):
    """bars that determine a value (gap filling off), or None when memory is unbounded"""
    g = lambda k: p.get(k, CLASSES[cls][2][k][1])
    w = g("window") if "window" in CLASSES[cls][2] else None
    if cls in ("SMAIndicator", "WMAIndicator", "BollingerBands", "CCIIndicator", "ChaikinMoneyFlowIndicator", "VolumeWeightedAveragePrice"):
        return w
    if cls == "DonchianChannel":
        return w + g("offset")
    if cls == "KeltnerChannel":
        return w if g("original_version") else None
    if cls == "WilliamsRIndicator":
        return g("lbp")
    if cls == "StochasticOscillator":
        return w if acc == "stoch" else w + g("smooth_window") - 1
    if cls == "UlcerIndex":
        return 2 * w - 1
    if cls == "AroonIndicator":
        return w + 1
    if cls == "DPOIndicator":
        return max(w, w // 2 + 2)
    if cls == "IchimokuIndicator":
        w1, w2, w3 = g("window1"), g("window2"), g("window3")
        vis = w2 if g("visual") else 0
        return {"ichimoku_conversion_line": w1, "ichimoku_base_line": w2, "ichimoku_a": max(w1, w2) + vis, "ichimoku_b": w3 + vis}[acc]
    if cls == "KSTIndicator":
        n = max(g(f"roc{i}") + g(f"window{i}") for i in (1, 2, 3, 4))
        return n if acc == "kst" else n + g("nsig") - 1
    if cls == "VortexIndicator":
        return w + 1
    if cls == "AwesomeOscillatorIndicator":
        return max(g("window1"), g("window2"))
    if cls == "ROCIndicator":
        return w + 1
    if cls == "UltimateOscillator":
        return max(g("window1"), g("window2"), g("window3")) + 1
    if cls == "EaseOfMovementIndicator":
        return 2 if acc == "ease_of_movement" else w + 1
    if cls == "MFIIndicator":
        return w + 1
    if cls in ("DailyReturnIndicator", "DailyLogReturnIndicator"):
        return 2
    return None
