import props_a as A
import props_b as B
import props_c as K
import props_d as L
import props_e as M
import props_f as P
import props_g as Q
import props_h as H
import props_i as I
CHECKS = {"C01": A.c01, "C02": A.c02, "C03": A.c03, "C04": A.c04, "C05": A.c05, "C16": A.c16, "C19": A.c19, "C08": B.c08, "C09": B.c09, "C15": B.c15, "C06": B.c06, "C17": K.c17, "C10": P.c10, "C12": M.c12, "C13": L.c13, "C14": Q.c14, "C18": H.c18, "C20": I.c20}
