"""property id -> (module under props, function, evidence level)"""
CHECKS = {
    "U01": ("utilities", "u01", "other"),
    "U02": ("storage", "u02", "other"),
    "U03": ("storage", "u03", "other"),
    "U04": ("storage", "u04", "other"),
    "U05": ("storage", "u05", "other"),
    "U06": ("utilities", "u06", "other"),
    "T01": ("topology", "t01", "other"),
    "T03": ("topology", "t03", "other"),
    "T02": ("topology", "t02", "other"),
    "T04": ("topology", "t04", "other"),
    "T05": ("topology", "t05", "other"),
    "T06": ("topology", "t06", "other"),
    "T07": ("topology", "t07", "other"),
    "T08": ("topology", "t08", "other"),
    "M01": ("algebra", "m01", "other"),
    "F01": ("algebra", "f01", "other"),
    "F02": ("algebra", "f02", "other"),
    "K01": ("algebra", "k01", "other"),
    "K02": ("algebra", "k02", "other"),
    "K03": ("algebra", "k03", "other"),
    "D01": ("functions", "d01", "other"),
    "D02": ("functions", "d02", "other"),
    "G01": ("geometry", "g01", "other"),
    "G02": ("geometry", "g02", "other"),
    "G03": ("geometry", "g03", "other"),
    "G04": ("geometry", "g04", "other"),
    "G05": ("elements", "g05", "other"),
    "G06": ("mesh", "g06", "other"),
    "E01": ("elements", "e01", "other"),
    "E02": ("elements", "e02", "other"),
    "E03": ("blocks", "e03", "other"),
    "E04": ("assembly", "e04", "other"),
    "H01": ("mesh", "h01", "other"),
    "H02": ("mesh", "h02", "other"),
    "L01": ("petsc", "l01", "other"),
    "L02": ("petsc", "l02", "other"),
    "L03": ("petsc", "l03", "other"),
    "L04": ("petsc", "l04", "other"),
    "O01": ("io", "o01", "other"),
    "O02": ("vtk", "o02", "other"),
    "Q01": ("partition", "q01", "other"),
    "N01": ("discrete", "n01", "other"),
    "S01": ("simulation", "s01", "other"),
    "P01": ("python", "p01", "other"),
    "P02": ("python", "p02", "other"),
    "Z01": ("headers", "z01", "other"),
}
