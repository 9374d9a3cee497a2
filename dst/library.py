"""One call of every section generator: (arguments, mesh size, number of elements)."""

LIBRARY = {
    "angle_section": ({"d": 150.0, "b": 100.0, "t": 8.0, "r_r": 12.0, "r_t": 5.0, "n_r": 3}, 490.9, 55),
    "box_girder_section": ({"d": 1200.0, "b_t": 1200.0, "b_b": 400.0, "t_ft": 100.0, "t_fb": 80.0, "t_w": 50.0}, 64579.4, 82),
    "bulb_section": ({"d": 240.0, "b": 34.0, "t": 12.0, "r": 10.0, "n_r": 3}, 930.2, 41),
    "cee_section": ({"d": 125.0, "b": 50.0, "l": 30.0, "t": 3.0, "r_out": 6.0, "n_r": 3}, 196.8, 142),
    "cee_wall": ({"d": 900.0, "b": 700.0, "t_f": 200.0, "t_w": 150.0, "dia_bar": 16.0, "area_bar": 200.0, "spacing": 300.0, "cover": 30.0, "double": True, "n_circle": 4}, 88750.0, 680),
    "channel_section": ({"d": 250.0, "b": 90.0, "t_f": 15.0, "t_w": 8.0, "r": 12.0, "n_r": 3}, 1136.1, 55),
    "circular_hollow_section": ({"d": 48.0, "t": 3.2, "n": 16}, 109.7, 48),
    "circular_section": ({"d": 50.0, "n": 16}, 478.4, 28),
    "circular_section_by_area": ({"area": 310.0, "n": 16}, 77.5, 30),
    "clt_rectangular_section": ({"d": [40.0, 40.0, 40.0], "b": 200.0}, 6000.0, 24),
    "concrete_circular_section": ({"d": 450.0, "area_conc": 159043.128, "n_conc": 24, "dia_bar": 20.0, "area_bar": 310.0, "n_bar": 6, "cover": 45.0, "n_circle": 4}, 39760.8, 212),
    "concrete_column_section": ({"d": 600.0, "b": 300.0, "dia_bar": 25.0, "area_bar": 500.0, "n_x": 3, "n_y": 6, "cover": 35.0, "n_circle": 4, "filled": False}, 45000.0, 332),
    "concrete_rectangular_section": ({"d": 600.0, "b": 300.0, "dia_top": 16.0, "area_top": 200.0, "n_top": 2, "c_top": 20.0, "dia_bot": 20.0, "area_bot": 310.0, "n_bot": 3, "c_bot": 30.0, "dia_side": 12.0, "area_side": 110.0, "n_side": 1, "c_side": 30.0, "n_circle": 4}, 45000.0, 292),
    "concrete_tee_section": ({"d": 900.0, "b": 450.0, "d_f": 150.0, "b_f": 1800.0, "dia_top": 24.0, "area_top": 450.0, "n_top": 4, "c_top": 42.0, "dia_bot": 28.0, "area_bot": 620.0, "n_bot": 3, "c_bot": 42.0, "dia_side": 16.0, "area_side": 200.0, "n_side": 1, "c_side": 42.0, "n_circle": 4}, 151875.0, 363),
    "cruciform_section": ({"d": 250.0, "b": 175.0, "t": 12.0, "r": 16.0, "n_r": 3}, 1314.0, 56),
    "double_lift_core_a": ({"d": 3200.0, "b": 1800.0, "t1": 200.0, "t2": 150.0, "a1": 900.0, "a2": 600.0, "dia_bar": 16.0, "area_bar": 200.0, "spacing": 800.0, "cover": 30.0, "double": True, "n_circle": 4}, 322500.0, 1235),
    "double_lift_core_b": ({"d": 6000.0, "b": 3000.0, "t1": 250.0, "t2": 220.0, "t3": 180.0, "a": 1500.0, "dia_bar": 24.0, "area_bar": 450.0, "spacing": 1200.0, "cover": 50.0, "double": True, "n_circle": 4}, 930200.0, 1789),
    "elliptical_hollow_section": ({"d_x": 50.0, "d_y": 25.0, "t": 2.0, "n": 16}, 54.3, 84),
    "elliptical_section": ({"d_x": 50.0, "d_y": 25.0, "n": 16}, 239.2, 20),
    "i_girder_section": ({"girder_type": 1}, 31425.0, 22),
    "i_section": ({"d": 203.0, "b": 133.0, "t_f": 7.8, "t_w": 5.8, "r": 8.9, "n_r": 3}, 813.6, 120),
    "mono_i_section": ({"d": 200.0, "b_t": 50.0, "b_b": 130.0, "t_ft": 12.0, "t_fb": 8.0, "t_w": 6.0, "r": 8.0, "n_r": 3}, 698.7, 72),
    "nastran_bar": ({"dim_1": 40.0, "dim_2": 30.0}, 300.0, 4),
    "nastran_box": ({"dim_1": 80.0, "dim_2": 60.0, "dim_3": 7.5, "dim_4": 10.0}, 525.0, 40),
    "nastran_box1": ({"dim_1": 80.0, "dim_2": 60.0, "dim_3": 7.5, "dim_4": 10.0, "dim_5": 5.0, "dim_6": 15.0}, 562.5, 46),
    "nastran_chan": ({"dim_1": 40.0, "dim_2": 80.0, "dim_3": 5.0, "dim_4": 10.0}, 275.0, 36),
    "nastran_chan1": ({"dim_1": 15.0, "dim_2": 20.0, "dim_3": 70.0, "dim_4": 80.0}, 437.5, 25),
    "nastran_chan2": ({"dim_1": 7.5, "dim_2": 10.0, "dim_3": 40.0, "dim_4": 80.0}, 312.5, 21),
    "nastran_cross": ({"dim_1": 30.0, "dim_2": 7.5, "dim_3": 60.0, "dim_4": 5.0}, 150.0, 23),
    "nastran_dbox": ({"dim_1": 160.0, "dim_2": 60.0, "dim_3": 60.0, "dim_4": 10.0, "dim_5": 12.5, "dim_6": 15.0, "dim_7": 7.5, "dim_8": 5.0, "dim_9": 10.0, "dim_10": 7.5}, 1043.8, 72),
    "nastran_fcross": ({"dim_1": 180.0, "dim_2": 120.0, "dim_3": 15.0, "dim_4": 12.5, "dim_5": 42.0, "dim_6": 7.5, "dim_7": 90.0, "dim_8": 11.28}, 1541.5, 62),
    "nastran_gbox": ({"dim_1": 120.0, "dim_2": 50.0, "dim_3": 7.5, "dim_4": 5.0, "dim_5": 12.5, "dim_6": 20.0}, 609.4, 55),
    "nastran_h": ({"dim_1": 40.0, "dim_2": 15.0, "dim_3": 70.0, "dim_4": 4.0}, 302.5, 68),
    "nastran_hat": ({"dim_1": 25.0, "dim_2": 5.0, "dim_3": 30.0, "dim_4": 10.0}, 112.5, 24),
    "nastran_hat1": ({"dim_1": 80.0, "dim_2": 40.0, "dim_3": 30.0, "dim_4": 3.75, "dim_5": 7.5}, 278.9, 68),
    "nastran_hexa": ({"dim_1": 10.0, "dim_2": 40.0, "dim_3": 30.0}, 225.0, 6),
    "nastran_i": ({"dim_1": 100.0, "dim_2": 40.0, "dim_3": 60.0, "dim_4": 5.0, "dim_5": 7.5, "dim_6": 10.0}, 328.1, 63),
    "nastran_i1": ({"dim_1": 20.0, "dim_2": 15.0, "dim_3": 80.0, "dim_4": 100.0}, 475.0, 18),
    "nastran_l": ({"dim_1": 60.0, "dim_2": 120.0, "dim_3": 7.5, "dim_4": 12.5}, 464.1, 22),
    "nastran_rod": ({"dim_1": 60.0, "n": 16}, 2755.3, 28),
    "nastran_tee": ({"dim_1": 60.0, "dim_2": 80.0, "dim_3": 7.5, "dim_4": 5.0}, 203.1, 30),
    "nastran_tee1": ({"dim_1": 60.0, "dim_2": 70.0, "dim_3": 7.5, "dim_4": 5.0}, 200.0, 41),
    "nastran_tee2": ({"dim_1": 60.0, "dim_2": 80.0, "dim_3": 7.5, "dim_4": 10.0}, 293.8, 21),
    "nastran_tube": ({"dim_1": 60.0, "dim_2": 50.0, "n": 16}, 841.9, 48),
    "nastran_tube2": ({"dim_1": 60.0, "dim_2": 10.0, "n": 16}, 841.9, 48),
    "nastran_zed": ({"dim_1": 22.5, "dim_2": 10.0, "dim_3": 70.0, "dim_4": 80.0}, 256.2, 30),
    "polygon_hollow_section": ({"d": 200.0, "t": 6.0, "n_sides": 8, "r_in": 20.0, "n_r": 3}, 871.2, 160),
    "rectangular_hollow_section": ({"d": 100.0, "b": 50.0, "t": 6.0, "r_out": 9.0, "n_r": 3}, 392.9, 120),
    "rectangular_section": ({"d": 100.0, "b": 50.0}, 1250.0, 5),
    "rectangular_wall": ({"d": 600.0, "t": 180.0, "dia_bar": 12.0, "area_bar": 110.0, "spacing": 200.0, "cover": 30.0, "double": False, "n_circle": 4}, 27000.0, 216),
    "single_lift_core": ({"d": 2400.0, "b": 1800.0, "t1": 150.0, "t2": 200.0, "a": 1000.0, "dia_bar": 20.0, "area_bar": 310.0, "spacing": 700.0, "cover": 35.0, "double": True, "n_circle": 4}, 295000.0, 1036),
    "stairwell": ({"d": 5000.0, "b": 2500.0, "t1": 180.0, "t2": 200.0, "a": 900.0, "dia_bar": 16.0, "area_bar": 200.0, "spacing": 900.0, "cover": 20.0, "double": True, "n_circle": 4}, 644000.0, 2047),
    "super_t_girder_section": ({"girder_type": 5, "w": 2100.0}, 169299.8, 162),
    "tapered_flange_channel": ({"d": 200.0, "b": 70.0, "t_f": 11.5, "t_w": 9.5, "r_r": 11.5, "r_f": 8.0, "alpha": 8.0, "n_r": 3}, 830.2, 86),
    "tapered_flange_i_section": ({"d": 588.0, "b": 191.0, "t_f": 27.2, "t_w": 15.2, "r_r": 17.8, "r_f": 8.9, "alpha": 8.0, "n_r": 3}, 4675.9, 166),
    "tee_section": ({"d": 200.0, "b": 100.0, "t_f": 12.0, "t_w": 6.0, "r": 8.0, "n_r": 3}, 591.4, 59),
    "tee_wall": ({"d": 900.0, "b": 800.0, "t_f": 150.0, "t_w": 120.0, "dia_bar": 12.0, "area_bar": 110.0, "spacing": 300.0, "cover": 30.0, "double": False, "n_circle": 4}, 52500.0, 338),
    "triangular_radius_section": ({"b": 120.0, "n_r": 3}, 1054.4, 8),
    "triangular_section": ({"b": 200.0, "h": 200.0}, 5000.0, 8),
    "zed_section": ({"d": 100.0, "b_l": 40.0, "b_r": 50.0, "l": 20.0, "t": 3.0, "r_out": 5.0, "n_r": 3}, 157.3, 136),
}
