// Generated: enumerations of many sizes. M(size) for each of them.
#pragma once
#include <maf/utils/StringifyableEnum.h>
MC_MAF_STRINGIFYABLE_ENUM(E1, int, n0)
MC_MAF_STRINGIFYABLE_ENUM(E2, unsigned, n0, n1)
MC_MAF_STRINGIFYABLE_ENUM(E3, unsigned char, n0, n1, n2)
MC_MAF_STRINGIFYABLE_ENUM(E4, short, n0, n1, n2, n3)
MC_MAF_STRINGIFYABLE_ENUM(E5, char, n0, n1, n2, n3, n4)
MC_MAF_STRINGIFYABLE_ENUM(E6, int, n0, n1, n2, n3, n4, n5)
MC_MAF_STRINGIFYABLE_ENUM(E7, unsigned, n0, n1, n2, n3, n4, n5, n6)
MC_MAF_STRINGIFYABLE_ENUM(E8, unsigned char, n0, n1, n2, n3, n4, n5, n6, n7)
MC_MAF_STRINGIFYABLE_ENUM(E9, short, n0, n1, n2, n3, n4, n5, n6, n7, n8)
MC_MAF_STRINGIFYABLE_ENUM(E10, char, n0, n1, n2, n3, n4, n5, n6, n7, n8, n9)
MC_MAF_STRINGIFYABLE_ENUM(E11, int, n0, n1, n2, n3, n4, n5, n6, n7, n8, n9, n10)
MC_MAF_STRINGIFYABLE_ENUM(E12, unsigned, n0, n1, n2, n3, n4, n5, n6, n7, n8, n9, n10, n11)
MC_MAF_STRINGIFYABLE_ENUM(E13, unsigned char, n0, n1, n2, n3, n4, n5, n6, n7, n8, n9, n10, n11, n12)
MC_MAF_STRINGIFYABLE_ENUM(E14, short, n0, n1, n2, n3, n4, n5, n6, n7, n8, n9, n10, n11, n12, n13)
MC_MAF_STRINGIFYABLE_ENUM(E15, char, n0, n1, n2, n3, n4, n5, n6, n7, n8, n9, n10, n11, n12, n13, n14)
MC_MAF_STRINGIFYABLE_ENUM(E16, int, n0, n1, n2, n3, n4, n5, n6, n7, n8, n9, n10, n11, n12, n13, n14, n15)
MC_MAF_STRINGIFYABLE_ENUM(E17, unsigned, n0, n1, n2, n3, n4, n5, n6, n7, n8, n9, n10, n11, n12, n13, n14, n15, n16)
MC_MAF_STRINGIFYABLE_ENUM(E18, unsigned char, n0, n1, n2, n3, n4, n5, n6, n7, n8, n9, n10, n11, n12, n13, n14, n15, n16, n17)
MC_MAF_STRINGIFYABLE_ENUM(E19, short, n0, n1, n2, n3, n4, n5, n6, n7, n8, n9, n10, n11, n12, n13, n14, n15, n16, n17, n18)
MC_MAF_STRINGIFYABLE_ENUM(E20, char, n0, n1, n2, n3, n4, n5, n6, n7, n8, n9, n10, n11, n12, n13, n14, n15, n16, n17, n18, n19)
MC_MAF_STRINGIFYABLE_ENUM(E31, int, n0, n1, n2, n3, n4, n5, n6, n7, n8, n9, n10, n11, n12, n13, n14, n15, n16, n17, n18, n19, n20, n21, n22, n23, n24, n25, n26, n27, n28, n29, n30)
MC_MAF_STRINGIFYABLE_ENUM(E32, unsigned, n0, n1, n2, n3, n4, n5, n6, n7, n8, n9, n10, n11, n12, n13, n14, n15, n16, n17, n18, n19, n20, n21, n22, n23, n24, n25, n26, n27, n28, n29, n30, n31)
MC_MAF_STRINGIFYABLE_ENUM(E33, unsigned char, n0, n1, n2, n3, n4, n5, n6, n7, n8, n9, n10, n11, n12, n13, n14, n15, n16, n17, n18, n19, n20, n21, n22, n23, n24, n25, n26, n27, n28, n29, n30, n31, n32)
MC_MAF_STRINGIFYABLE_ENUM(E63, unsigned char, n0, n1, n2, n3, n4, n5, n6, n7, n8, n9, n10, n11, n12, n13, n14, n15, n16, n17, n18, n19, n20, n21, n22, n23, n24, n25, n26, n27, n28, n29, n30, n31, n32, n33, n34, n35, n36, n37, n38, n39, n40, n41, n42, n43, n44, n45, n46, n47, n48, n49, n50, n51, n52, n53, n54, n55, n56, n57, n58, n59, n60, n61, n62)
MC_MAF_STRINGIFYABLE_ENUM(E64, short, n0, n1, n2, n3, n4, n5, n6, n7, n8, n9, n10, n11, n12, n13, n14, n15, n16, n17, n18, n19, n20, n21, n22, n23, n24, n25, n26, n27, n28, n29, n30, n31, n32, n33, n34, n35, n36, n37, n38, n39, n40, n41, n42, n43, n44, n45, n46, n47, n48, n49, n50, n51, n52, n53, n54, n55, n56, n57, n58, n59, n60, n61, n62, n63)
MC_MAF_STRINGIFYABLE_ENUM(E65, char, n0, n1, n2, n3, n4, n5, n6, n7, n8, n9, n10, n11, n12, n13, n14, n15, n16, n17, n18, n19, n20, n21, n22, n23, n24, n25, n26, n27, n28, n29, n30, n31, n32, n33, n34, n35, n36, n37, n38, n39, n40, n41, n42, n43, n44, n45, n46, n47, n48, n49, n50, n51, n52, n53, n54, n55, n56, n57, n58, n59, n60, n61, n62, n63, n64)
MC_MAF_STRINGIFYABLE_ENUM(E99, short, n0, n1, n2, n3, n4, n5, n6, n7, n8, n9, n10, n11, n12, n13, n14, n15, n16, n17, n18, n19, n20, n21, n22, n23, n24, n25, n26, n27, n28, n29, n30, n31, n32, n33, n34, n35, n36, n37, n38, n39, n40, n41, n42, n43, n44, n45, n46, n47, n48, n49, n50, n51, n52, n53, n54, n55, n56, n57, n58, n59, n60, n61, n62, n63, n64, n65, n66, n67, n68, n69, n70, n71, n72, n73, n74, n75, n76, n77, n78, n79, n80, n81, n82, n83, n84, n85, n86, n87, n88, n89, n90, n91, n92, n93, n94, n95, n96, n97, n98)
MC_MAF_STRINGIFYABLE_ENUM(E100, char, n0, n1, n2, n3, n4, n5, n6, n7, n8, n9, n10, n11, n12, n13, n14, n15, n16, n17, n18, n19, n20, n21, n22, n23, n24, n25, n26, n27, n28, n29, n30, n31, n32, n33, n34, n35, n36, n37, n38, n39, n40, n41, n42, n43, n44, n45, n46, n47, n48, n49, n50, n51, n52, n53, n54, n55, n56, n57, n58, n59, n60, n61, n62, n63, n64, n65, n66, n67, n68, n69, n70, n71, n72, n73, n74, n75, n76, n77, n78, n79, n80, n81, n82, n83, n84, n85, n86, n87, n88, n89, n90, n91, n92, n93, n94, n95, n96, n97, n98, n99)
MC_MAF_STRINGIFYABLE_ENUM(E101, int, n0, n1, n2, n3, n4, n5, n6, n7, n8, n9, n10, n11, n12, n13, n14, n15, n16, n17, n18, n19, n20, n21, n22, n23, n24, n25, n26, n27, n28, n29, n30, n31, n32, n33, n34, n35, n36, n37, n38, n39, n40, n41, n42, n43, n44, n45, n46, n47, n48, n49, n50, n51, n52, n53, n54, n55, n56, n57, n58, n59, n60, n61, n62, n63, n64, n65, n66, n67, n68, n69, n70, n71, n72, n73, n74, n75, n76, n77, n78, n79, n80, n81, n82, n83, n84, n85, n86, n87, n88, n89, n90, n91, n92, n93, n94, n95, n96, n97, n98, n99, n100)
MC_MAF_STRINGIFYABLE_ENUM(E124, short, n0, n1, n2, n3, n4, n5, n6, n7, n8, n9, n10, n11, n12, n13, n14, n15, n16, n17, n18, n19, n20, n21, n22, n23, n24, n25, n26, n27, n28, n29, n30, n31, n32, n33, n34, n35, n36, n37, n38, n39, n40, n41, n42, n43, n44, n45, n46, n47, n48, n49, n50, n51, n52, n53, n54, n55, n56, n57, n58, n59, n60, n61, n62, n63, n64, n65, n66, n67, n68, n69, n70, n71, n72, n73, n74, n75, n76, n77, n78, n79, n80, n81, n82, n83, n84, n85, n86, n87, n88, n89, n90, n91, n92, n93, n94, n95, n96, n97, n98, n99, n100, n101, n102, n103, n104, n105, n106, n107, n108, n109, n110, n111, n112, n113, n114, n115, n116, n117, n118, n119, n120, n121, n122, n123)
MC_MAF_STRINGIFYABLE_ENUM(E125, char, n0, n1, n2, n3, n4, n5, n6, n7, n8, n9, n10, n11, n12, n13, n14, n15, n16, n17, n18, n19, n20, n21, n22, n23, n24, n25, n26, n27, n28, n29, n30, n31, n32, n33, n34, n35, n36, n37, n38, n39, n40, n41, n42, n43, n44, n45, n46, n47, n48, n49, n50, n51, n52, n53, n54, n55, n56, n57, n58, n59, n60, n61, n62, n63, n64, n65, n66, n67, n68, n69, n70, n71, n72, n73, n74, n75, n76, n77, n78, n79, n80, n81, n82, n83, n84, n85, n86, n87, n88, n89, n90, n91, n92, n93, n94, n95, n96, n97, n98, n99, n100, n101, n102, n103, n104, n105, n106, n107, n108, n109, n110, n111, n112, n113, n114, n115, n116, n117, n118, n119, n120, n121, n122, n123, n124)
#define ALL_ENUMS(M) M(1) M(2) M(3) M(4) M(5) M(6) M(7) M(8) M(9) M(10) M(11) M(12) M(13) M(14) M(15) M(16) M(17) M(18) M(19) M(20) M(31) M(32) M(33) M(63) M(64) M(65) M(99) M(100) M(101) M(124) M(125)
