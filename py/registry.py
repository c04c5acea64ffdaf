"""Which models, driver and trace specification decide each property."""
REG = {
 "C01": dict(driver="d_rot:c01", models=[dict(module="MC_Rot", const={"M": 2, "Mode": '"single"'}, thorough={"M": 3})]),
 "C02": dict(driver="d_rot:c02", models=[dict(module="MC_Rot", const={"M": 2, "Mode": '"pair"'}, thorough={"M": 3})]),
 "C03": dict(driver="d_rot:c03", models=[dict(module="MC_Rot", const={"M": 2, "Mode": '"pair"'}, thorough={"M": 3})]),
 "C04": dict(driver="d_kin:c04", models=[dict(module="MC_Xf", const={"Depth": 3, "Rate": 101}, thorough={"Rate": 5})]),
 "C05": dict(driver="d_kin:c05", models=[dict(module="MC_Robot", const={"K": 2}, thorough={"K": 3})]),
 "C06": dict(driver="d_kin:c06", models=[dict(module="MC_Kin", const={"N": 2, "Rate": 41}, thorough={"N": 3, "Rate": 211})]),
 "C07": dict(driver="d_kin:c07", models=[dict(module="MC_Lim", const={"N": 2, "Rate": 61}, thorough={"N": 3, "Rate": 997})]),
 "C08": dict(driver="d_kin:c08", models=[dict(module="MC_Kin", const={"N": 2, "Rate": 41}, thorough={"N": 3, "Rate": 211})]),
 "C09": dict(driver="d_kin:c09", models=[dict(module="MC_Kin", const={"N": 2, "Rate": 97}, thorough={"N": 3, "Rate": 997})]),
 "C10": dict(driver="d_sub:c10", models=[dict(module="MC_Sub", const={"Kind": '"cones"', "Rate": 61}, thorough={"Rate": 7})]),
 "C11": dict(driver="d_sub:c11", models=[dict(module="MC_Sub", const={"Kind": '"elbow"', "Rate": 31}, thorough={"Rate": 5}), dict(module="MC_Sub", const={"Kind": '"plane"', "Rate": 29}, thorough={"Rate": 5})]),
 "C12": dict(driver="d_ik:c12", models=[dict(module="MC_Turn", const={"Mode": '"near"', "N": 1, "Rate": 11})]),
 "C13": dict(driver="d_ik:c13", models=[dict(module="MC_Turn", const={"Mode": '"near"', "N": 1, "Rate": 11})]),
 "C14": dict(driver="d_ik:c14", models=[dict(module="MC_Turn", const={"Mode": '"near"', "N": 1, "Rate": 11})]),
 "C15": dict(driver="d_ik:c15", models=[dict(module="MC_Turn", const={"Mode": '"equiv"', "N": 2, "Rate": 131}, thorough={"Rate": 13})]),
 "C16": dict(driver="d_ik:c16", models=[dict(module="MC_Iter", const={"N": 2, "B": 3, "E": 2}, thorough={"N": 3, "B": 5, "E": 4})]),
 "C17": dict(driver="d_sess:c17", models=[dict(module="MC_Sess", const={"Depth": 3, "Rate": 1201}, thorough={"Depth": 3, "Rate": 101})]),
 "C18": dict(driver="d_urdf:c18", models=[dict(module="MC_Urdf", const={"Mode": '"chain"', "N": 2, "Rate": 1}), dict(module="MC_Urdf", const={"Mode": '"tree"', "N": 3, "Rate": 61}, thorough={"Rate": 11})]),
 "C19": dict(driver="d_urdf:c19", models=[dict(module="MC_Urdf", const={"Mode": '"tree"', "N": 3, "Rate": 61}, thorough={"N": 4, "Rate": 201})]),
 "C20": dict(driver="d_rr:c20", models=[dict(module="MC_Rr", const={"NJ": 3, "NC": 2, "Rate": 97}, thorough={"NC": 3, "Rate": 401})]),
 "C21": dict(driver="d_tess:c21", models=[dict(module="MC_Sg", const={"N": 2, "Full": "FALSE", "Rate": 41}, thorough={"Full": "TRUE", "Rate": 211})]),
 "C22": dict(driver="d_tess:c22", models=[dict(module="MC_Sg", const={"N": 2, "Full": "FALSE", "Rate": 61}, thorough={"Full": "TRUE", "Rate": 211})]),
 "C23": dict(driver="d_tess:c23", models=[dict(module="MC_Fam", const={"Rate": 1})]),
 "C24": dict(driver="d_ros:c24", models=[dict(module="MC_Msg", const={"Depth": 2}, thorough={"Depth": 3})]),
 "C25": dict(driver="d_ros:c25", models=[dict(module="MC_Tf", const={"K": 2, "Rate": 7}, thorough={"K": 3, "Rate": 71})]),
}
