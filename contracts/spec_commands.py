"""What every settings helper documents: target registers, accepted range, value written (specification data)."""

# helper -> (register, lowest, highest): one integral argument, written as given
NUMERIC = {
    "set_charge_target_soc": (116, 4, 100),
    "set_battery_soc_reserve": (110, 4, 100),
    "set_battery_reserve_soc": (1078, 4, 100),
    "set_battery_soc_reserve_3ph": (1109, 4, 100),
    "set_charge_target_soc_3ph": (1111, 4, 100),
    "set_battery_charge_limit": (111, 0, 100),
    "set_battery_discharge_limit": (112, 0, 100),
    "set_battery_power_reserve": (114, 4, 100),
    "set_active_power_rate": (50, 0, 100),
    "set_battery_charge_limit_ac": (313, 1, 100),
    "set_battery_discharge_limit_ac": (314, 1, 100),
    "set_ems_export_power_limit": (2071, 0, 65535),
}
NUMERIC_INSTALLER = {
    "set_battery_nominal_power": (308, 0, 65535),
    "set_battery_nominal_current": (309, 0, 65535),
    "set_battery_max_charge_pct": (310, 20, 100),
    "set_ev_charger_soc_limit": (336, 0, 100),
    "set_generator_start_soc": (344, 0, 100),
    "set_generator_stop_soc": (345, 0, 100),
    "set_smart_load_control_soc": (541, 50, 100),
    "set_general_load_control_soc": (543, 50, 100),
    "set_generator_control_soc": (544, 10, 90),
}
# one of a few allowed values
CHOICE = {
    "set_calibrate_battery_soc": (29, (0, 1, 3)),
    "set_battery_pause_mode": (318, (0, 1, 2, 3)),
    "set_export_priority": (311, (0, 1, 2)),
}
SWITCH = {
    "set_enable_charge": 96,
    "set_enable_discharge": 59,
    "set_enable_rtc": 166,
    "set_enable_eps": 317,
    "set_ac_charge": 1112,
    "set_force_charge": 1123,
    "set_force_discharge": 1122,
    "set_ems_plant": 2040,
}
SWITCH_INSTALLER = {
    "set_anti_islanding_detection": 115,
    "set_grid_import_limit_enabled": 102,
    "set_enable_plant_mode": 300,
    "set_enable_micro_grid": 332,
    "set_enable_ev_charger": 333,
    "set_enable_generator": 343,
    "set_enable_smart_load": 540,
    "set_enable_export_limit_3ph": 1103,
    "set_enable_import_limit_3ph": 1131,
    "set_peak_shaving_export_limit_enabled": 20000,
    "set_peak_shaving_enabled": 20002,
}
CONSTANT = {
    "disable_charge_target": [(20, 0), (116, 100)],
    "disable_charge_target_3ph": [(20, 0), (1111, 100)],
    "set_inverter_reboot": [(163, 100)],
    "enable_charge": [(96, 1)],
    "disable_charge": [(96, 0)],
    "enable_discharge": [(59, 1)],
    "disable_discharge": [(59, 0)],
    "set_discharge_mode_max_power": [(27, 0)],
    "set_discharge_mode_to_match_demand": [(27, 1)],
    "set_mode_dynamic": [(27, 1), (110, 4), (59, 0)],
}

_EXT_C = [(246 + 3 * i, 247 + 3 * i) for i in range(8)]
_EXT_D = [(276 + 3 * i, 277 + 3 * i) for i in range(8)]
# (charge slots, discharge slots) start/end registers
SLOTS = {
    "SINGLE_PHASE_SLOTS": ([(94, 95), (31, 32)], [(56, 57), (44, 45)]),
    "EXTENDED_SLOTS": ([(94, 95), (31, 32)] + _EXT_C, [(56, 57), (44, 45)] + _EXT_D),
    "THREE_PHASE_SLOTS": ([(1113, 1114), (1115, 1116)] + _EXT_C, [(1118, 1119), (1120, 1121)] + _EXT_D),
    "EMS_SLOTS": ([(2053, 2054), (2056, 2057), (2059, 2060)], [(2044, 2045), (2047, 2048), (2050, 2051)]),
}
EXPORT_SLOTS = [(2062, 2063), (2065, 2066), (2068, 2069)]
SMART_LOAD_SLOTS = [(554 + 2 * i, 555 + 2 * i) for i in range(10)]
EMS_TARGETS = {
    "set_ems_discharge_target_soc": (2046, 2049, 2052),
    "set_ems_charge_target_soc": (2055, 2058, 2061),
    "set_ems_export_target_soc": (2064, 2067, 2070),
}

# grid protection: helper -> (register, scale, lowest raw, highest raw)
_V, _F, _T = (10, 0, 5000), (100, 4000, 7000), (100, 0, 65535)
GRID = {
    "set_v_ac_low_limit_trip": (63, *_V), "set_v_ac_high_limit_trip": (64, *_V),
    "set_f_ac_low_limit_trip": (65, *_F), "set_f_ac_high_limit_trip": (66, *_F),
    "set_t_ac_low_voltage_trip": (67, *_T), "set_t_ac_high_voltage_trip": (68, *_T),
    "set_t_ac_low_freq_trip": (69, *_T), "set_t_ac_high_freq_trip": (70, *_T),
    "set_v_ac_low_limit_reconnect": (71, *_V), "set_v_ac_high_limit_reconnect": (72, *_V),
    "set_f_ac_low_limit_reconnect": (73, *_F), "set_f_ac_high_limit_reconnect": (74, *_F),
    "set_t_ac_low_voltage_reconnect": (75, *_T), "set_t_ac_high_voltage_reconnect": (76, *_T),
    "set_t_ac_low_freq_reconnect": (77, *_T), "set_t_ac_high_freq_reconnect": (78, *_T),
    "set_v_ac_low_limit_grid": (79, *_V), "set_v_ac_high_limit_grid": (80, *_V),
    "set_f_ac_low_limit_grid": (81, *_F), "set_f_ac_high_limit_grid": (82, *_F),
    "set_v_ac_10min_protect": (83, *_V),
}
IRREVERSIBLE = {
    "reset_energy_totals": 162,
    "three_phase_factory_reset": 1016,
    "enable_black_start": 5003,
    "restore_factory_defaults": 5004,
}
