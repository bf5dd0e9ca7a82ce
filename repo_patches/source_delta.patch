From 5ed034867dc2382ae9abf6110823dd1cbc35b386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:39 +0000
Subject: [PATCH 01/41] fix: convertTo handles the two LCH color types

---
 ColorMagic/manipulation/color_converter.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ColorMagic/manipulation/color_converter.cpp b/ColorMagic/manipulation/color_converter.cpp
index c1c087b..f1d28e8 100644
--- a/ColorMagic/manipulation/color_converter.cpp
+++ b/ColorMagic/manipulation/color_converter.cpp
@@ -33,6 +33,10 @@ color_space::color_base* color_manipulation::color_converter::convertTo(color_sp
 		return color_manipulation::color_converter::to_cieluv(in_color);
 	case color_type::LAB:
 		return color_manipulation::color_converter::to_lab(in_color);
+	case color_type::LCH_AB:
+		return color_manipulation::color_converter::to_lch_ab(in_color);
+	case color_type::LCH_UV:
+		return color_manipulation::color_converter::to_lch_uv(in_color);
 	default:
 		return nullptr;
 	}
-- 
2.43.0


From 8f66cd0509c0df654f3f897a254a78ab97bf5814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:41 +0000
Subject: [PATCH 02/41] fix: hsl to rgb keeps alpha for black

---
 ColorMagic/manipulation/color_converter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ColorMagic/manipulation/color_converter.cpp b/ColorMagic/manipulation/color_converter.cpp
index f1d28e8..01ba882 100644
--- a/ColorMagic/manipulation/color_converter.cpp
+++ b/ColorMagic/manipulation/color_converter.cpp
@@ -653,7 +653,7 @@ color_space::rgb_truecolor* color_manipulation::color_converter::hsl_to_rgb_true
 
 color_space::rgb_deepcolor* color_manipulation::color_converter::hsl_to_rgb_deep(color_space::hsl* color)
 {
-	if (color->lightness() == 0.f) return new color_space::rgb_deepcolor(0.f, 0.f, color->get_rgb_color_space());
+	if (color->lightness() == 0.f) return new color_space::rgb_deepcolor(0.f, color->alpha(), color->get_rgb_color_space());
 
 	/* Old not optimized version
 
-- 
2.43.0


From 78315fe06541af79c62bd41a190f28605255b1ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:43 +0000
Subject: [PATCH 03/41] fix: rgb deep to xyz no longer linearizes its input

---
 ColorMagic/manipulation/color_converter.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ColorMagic/manipulation/color_converter.cpp b/ColorMagic/manipulation/color_converter.cpp
index 01ba882..0999219 100644
--- a/ColorMagic/manipulation/color_converter.cpp
+++ b/ColorMagic/manipulation/color_converter.cpp
@@ -217,9 +217,10 @@ color_space::hcy* color_manipulation::color_converter::rgb_deep_to_hcy(color_spa
 
 color_space::xyz* color_manipulation::color_converter::rgb_deep_to_xyz(color_space::rgb_deepcolor* color)
 {
-	color->do_inverse_gamma_correction();
+	color_space::rgb_deepcolor linear_color(*color);
+	linear_color.do_inverse_gamma_correction();
 
-	auto xyz_components = color->get_rgb_color_space()->get_transform_matrix()* color->get_component_vector();
+	auto xyz_components = color->get_rgb_color_space()->get_transform_matrix()* linear_color.get_component_vector();
 	return new color_space::xyz(xyz_components[0], xyz_components[1], xyz_components[2], color->alpha(), color->get_rgb_color_space());
 }
 
-- 
2.43.0


From 9325b28829589df5c353214f68504d38c0c40d2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:19 +0000
Subject: [PATCH 04/41] fix: color constructors limit alpha to its range

---
 ColorMagic/spaces/color_base.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ColorMagic/spaces/color_base.h b/ColorMagic/spaces/color_base.h
index 074bd2a..1d4b030 100644
--- a/ColorMagic/spaces/color_base.h
+++ b/ColorMagic/spaces/color_base.h
@@ -32,7 +32,7 @@ namespace color_space
 		*/
 		color_base(float alpha, rgb_color_space_definition* color_space, size_t component_count, float component_max = 1.f, float component_min = 0.f)
 		{
-			m_alpha = alpha;
+			m_alpha = clamp(alpha, m_a_max, m_a_min);
 			m_rgb_color_space = color_space;
 			m_max = component_max;
 			m_min = component_min;
-- 
2.43.0


From 741293affa78c44128909202622a5e6afe36e402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:25 +0000
Subject: [PATCH 05/41] fix: construct rgb, grey true and cieluv colors from
 base objects

---
 ColorMagic/spaces/cieluv.cpp         | 2 +-
 ColorMagic/spaces/grey_truecolor.cpp | 3 ++-
 ColorMagic/spaces/rgb_deepcolor.cpp  | 2 +-
 ColorMagic/spaces/rgb_truecolor.cpp  | 3 ++-
 4 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/ColorMagic/spaces/cieluv.cpp b/ColorMagic/spaces/cieluv.cpp
index ae81bb5..b1af8fb 100644
--- a/ColorMagic/spaces/cieluv.cpp
+++ b/ColorMagic/spaces/cieluv.cpp
@@ -18,7 +18,7 @@ color_space::cieluv::cieluv(const color_space::cieluv & other) : color_base(othe
 
 color_space::cieluv::cieluv(const color_base & other) : color_base(other.alpha(), other.get_rgb_color_space(), 4, other.get_component_max(), other.get_component_min())
 {
-	if (other.get_color_type() == color_type::CIELUV && other.get_component_vector().size() == 4)
+	if (other.get_color_type() == color_type::CIELUV && other.get_component_vector().size() == 3)
 	{
 		this->m_type = color_type::CIELUV;
 		this->m_component_vector = other.get_component_vector();
diff --git a/ColorMagic/spaces/grey_truecolor.cpp b/ColorMagic/spaces/grey_truecolor.cpp
index 9906aa4..589fb87 100644
--- a/ColorMagic/spaces/grey_truecolor.cpp
+++ b/ColorMagic/spaces/grey_truecolor.cpp
@@ -17,10 +17,11 @@ color_space::grey_truecolor::grey_truecolor(const color_space::grey_truecolor &
 
 color_space::grey_truecolor::grey_truecolor(const color_base & other) : color_base(other.alpha(), other.get_rgb_color_space(), 1, other.get_component_max(), other.get_component_min())
 {
-	if (other.get_color_type() == color_type::GREY_TRUE && other.get_component_vector().size() == 2)
+	if (other.get_color_type() == color_type::GREY_TRUE && other.get_component_vector().size() == 1)
 	{
 		this->m_type = color_type::GREY_TRUE;
 		this->m_component_vector = other.get_component_vector();
+		this->alpha(other.alpha());
 	}
 	else
 	{
diff --git a/ColorMagic/spaces/rgb_deepcolor.cpp b/ColorMagic/spaces/rgb_deepcolor.cpp
index 791cdee..a23e8a8 100644
--- a/ColorMagic/spaces/rgb_deepcolor.cpp
+++ b/ColorMagic/spaces/rgb_deepcolor.cpp
@@ -26,7 +26,7 @@ color_space::rgb_deepcolor::rgb_deepcolor(const color_space::rgb_deepcolor & oth
 
 color_space::rgb_deepcolor::rgb_deepcolor(const color_base & other) : color_base(other.alpha(), other.get_rgb_color_space(), 3, other.get_component_max(), other.get_component_min())
 {
-	if (other.get_color_type() == color_type::RGB_DEEP && other.get_component_vector().size() == 4)
+	if (other.get_color_type() == color_type::RGB_DEEP && other.get_component_vector().size() == 3)
 	{
 		this->m_type = color_type::RGB_DEEP;
 		this->m_component_vector = other.get_component_vector();
diff --git a/ColorMagic/spaces/rgb_truecolor.cpp b/ColorMagic/spaces/rgb_truecolor.cpp
index ec9f2ca..b35c6e2 100644
--- a/ColorMagic/spaces/rgb_truecolor.cpp
+++ b/ColorMagic/spaces/rgb_truecolor.cpp
@@ -77,10 +77,11 @@ color_space::rgb_truecolor::rgb_truecolor(const color_space::rgb_truecolor & oth
 
 color_space::rgb_truecolor::rgb_truecolor(const color_base & other) : color_base(other.alpha(), other.get_rgb_color_space(), 3, other.get_component_max(), other.get_component_min())
 {
-	if (other.get_color_type() == color_type::RGB_TRUE && other.get_component_vector().size() == 4)
+	if (other.get_color_type() == color_type::RGB_TRUE && other.get_component_vector().size() == 3)
 	{
 		this->m_type = color_type::RGB_TRUE;
 		this->m_component_vector = other.get_component_vector();
+		this->alpha(other.alpha());
 	}
 	else
 	{
-- 
2.43.0


From a03f2c95922fc98600215e885ebc68cf0bc5389a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:27 +0000
Subject: [PATCH 06/41] fix: add, mix and subtract of base objects handle every
 color type

---
 ColorMagic/manipulation/color_calculation.cpp | 20 +++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/ColorMagic/manipulation/color_calculation.cpp b/ColorMagic/manipulation/color_calculation.cpp
index 01b1b9d..790b42a 100644
--- a/ColorMagic/manipulation/color_calculation.cpp
+++ b/ColorMagic/manipulation/color_calculation.cpp
@@ -18,10 +18,14 @@ color_space::color_base * color_manipulation::color_calculation::add(color_space
 		return color_manipulation::color_calculation::add(color_manipulation::color_converter::to_grey_deep(color1), color_manipulation::color_converter::to_grey_deep(color2), weight1, weight2, include_alpha);
 	case color_type::CMYK:
 		return color_manipulation::color_calculation::add(color_manipulation::color_converter::to_cmyk(color1), color_manipulation::color_converter::to_cmyk(color2), weight1, weight2, include_alpha);
+	case color_type::HSI:
+		return color_manipulation::color_calculation::add(color_manipulation::color_converter::to_hsi(color1), color_manipulation::color_converter::to_hsi(color2), weight1, weight2, include_alpha);
 	case color_type::HSV:
 		return color_manipulation::color_calculation::add(color_manipulation::color_converter::to_hsv(color1), color_manipulation::color_converter::to_hsv(color2), weight1, weight2, include_alpha);
 	case color_type::HSL:
 		return color_manipulation::color_calculation::add(color_manipulation::color_converter::to_hsl(color1), color_manipulation::color_converter::to_hsl(color2), weight1, weight2, include_alpha);
+	case color_type::HCY:
+		return color_manipulation::color_calculation::add(color_manipulation::color_converter::to_hcy(color1), color_manipulation::color_converter::to_hcy(color2), weight1, weight2, include_alpha);
 	case color_type::XYZ:
 		return color_manipulation::color_calculation::add(color_manipulation::color_converter::to_xyz(color1), color_manipulation::color_converter::to_xyz(color2), weight1, weight2, include_alpha);
 	case color_type::XYY:
@@ -221,12 +225,20 @@ color_space::color_base * color_manipulation::color_calculation::mix(color_space
 		return color_manipulation::color_calculation::mix(color_manipulation::color_converter::to_grey_deep(color1), color_manipulation::color_converter::to_grey_deep(color2), weight, include_alpha);
 	case color_type::CMYK:
 		return color_manipulation::color_calculation::mix(color_manipulation::color_converter::to_cmyk(color1), color_manipulation::color_converter::to_cmyk(color2), weight, include_alpha);
+	case color_type::HSI:
+		return color_manipulation::color_calculation::mix(color_manipulation::color_converter::to_hsi(color1), color_manipulation::color_converter::to_hsi(color2), weight, include_alpha);
 	case color_type::HSV:
 		return color_manipulation::color_calculation::mix(color_manipulation::color_converter::to_hsv(color1), color_manipulation::color_converter::to_hsv(color2), weight, include_alpha);
 	case color_type::HSL:
 		return color_manipulation::color_calculation::mix(color_manipulation::color_converter::to_hsl(color1), color_manipulation::color_converter::to_hsl(color2), weight, include_alpha);
+	case color_type::HCY:
+		return color_manipulation::color_calculation::mix(color_manipulation::color_converter::to_hcy(color1), color_manipulation::color_converter::to_hcy(color2), weight, include_alpha);
 	case color_type::XYZ:
 		return color_manipulation::color_calculation::mix(color_manipulation::color_converter::to_xyz(color1), color_manipulation::color_converter::to_xyz(color2), weight, include_alpha);
+	case color_type::XYY:
+		return color_manipulation::color_calculation::mix(color_manipulation::color_converter::to_xyy(color1), color_manipulation::color_converter::to_xyy(color2), weight, include_alpha);
+	case color_type::CIELUV:
+		return color_manipulation::color_calculation::mix(color_manipulation::color_converter::to_cieluv(color1), color_manipulation::color_converter::to_cieluv(color2), weight, include_alpha);
 	case color_type::LAB:
 		return color_manipulation::color_calculation::mix(color_manipulation::color_converter::to_lab(color1), color_manipulation::color_converter::to_lab(color2), weight, include_alpha);
 	case color_type::LCH_AB:
@@ -357,12 +369,20 @@ color_space::color_base * color_manipulation::color_calculation::subtract(color_
 		return color_manipulation::color_calculation::subtract(color_manipulation::color_converter::to_grey_deep(color1), color_manipulation::color_converter::to_grey_deep(color2), weight, include_alpha);
 	case color_type::CMYK:
 		return color_manipulation::color_calculation::subtract(color_manipulation::color_converter::to_cmyk(color1), color_manipulation::color_converter::to_cmyk(color2), weight, include_alpha);
+	case color_type::HSI:
+		return color_manipulation::color_calculation::subtract(color_manipulation::color_converter::to_hsi(color1), color_manipulation::color_converter::to_hsi(color2), weight, include_alpha);
 	case color_type::HSV:
 		return color_manipulation::color_calculation::subtract(color_manipulation::color_converter::to_hsv(color1), color_manipulation::color_converter::to_hsv(color2), weight, include_alpha);
 	case color_type::HSL:
 		return color_manipulation::color_calculation::subtract(color_manipulation::color_converter::to_hsl(color1), color_manipulation::color_converter::to_hsl(color2), weight, include_alpha);
+	case color_type::HCY:
+		return color_manipulation::color_calculation::subtract(color_manipulation::color_converter::to_hcy(color1), color_manipulation::color_converter::to_hcy(color2), weight, include_alpha);
 	case color_type::XYZ:
 		return color_manipulation::color_calculation::subtract(color_manipulation::color_converter::to_xyz(color1), color_manipulation::color_converter::to_xyz(color2), weight, include_alpha);
+	case color_type::XYY:
+		return color_manipulation::color_calculation::subtract(color_manipulation::color_converter::to_xyy(color1), color_manipulation::color_converter::to_xyy(color2), weight, include_alpha);
+	case color_type::CIELUV:
+		return color_manipulation::color_calculation::subtract(color_manipulation::color_converter::to_cieluv(color1), color_manipulation::color_converter::to_cieluv(color2), weight, include_alpha);
 	case color_type::LAB:
 		return color_manipulation::color_calculation::subtract(color_manipulation::color_converter::to_lab(color1), color_manipulation::color_converter::to_lab(color2), weight, include_alpha);
 	case color_type::LCH_AB:
-- 
2.43.0


From 02be5ea8cd78cde76eea470cb6f91dbc18ed405a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:30 +0000
Subject: [PATCH 07/41] fix: mix and subtract of base objects accept weight 0

---
 ColorMagic/manipulation/color_calculation.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ColorMagic/manipulation/color_calculation.cpp b/ColorMagic/manipulation/color_calculation.cpp
index 790b42a..75e01e5 100644
--- a/ColorMagic/manipulation/color_calculation.cpp
+++ b/ColorMagic/manipulation/color_calculation.cpp
@@ -211,7 +211,7 @@ color_space::lch_uv * color_manipulation::color_calculation::add(color_space::lc
 
 color_space::color_base * color_manipulation::color_calculation::mix(color_space::color_base * color1, color_space::color_base * color2, float weight, bool include_alpha)
 {
-	if (weight <= 0.f || weight > 1.f) throw new std::invalid_argument("Parameter weight has to be in the range [0,1].");
+	if (weight < 0.f || weight > 1.f) throw new std::invalid_argument("Parameter weight has to be in the range [0,1].");
 
 	switch (color1->get_color_type())
 	{
@@ -355,7 +355,7 @@ color_space::lch_uv * color_manipulation::color_calculation::mix(color_space::lc
 
 color_space::color_base * color_manipulation::color_calculation::subtract(color_space::color_base * color1, color_space::color_base * color2, float weight, bool include_alpha)
 {
-	if (weight <= 0.f || weight > 1.f) throw new std::invalid_argument("Parameter weight has to be in the range [0,1].");
+	if (weight < 0.f || weight > 1.f) throw new std::invalid_argument("Parameter weight has to be in the range [0,1].");
 
 	switch (color1->get_color_type())
 	{
-- 
2.43.0


From b49bb9945758ca672e7f09b37b704f1232a02f4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:34 +0000
Subject: [PATCH 08/41] fix: subtract passes include_alpha on to the vector
 space

---
 ColorMagic/manipulation/color_calculation.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/ColorMagic/manipulation/color_calculation.cpp b/ColorMagic/manipulation/color_calculation.cpp
index 75e01e5..05ec45a 100644
--- a/ColorMagic/manipulation/color_calculation.cpp
+++ b/ColorMagic/manipulation/color_calculation.cpp
@@ -449,7 +449,7 @@ color_space::hsi * color_manipulation::color_calculation::subtract(color_space::
 {
 	if (weight < 0.f || weight > 1.f) throw new std::invalid_argument("Parameter weight has to be in the range [0,1].");
 
-	return color_manipulation::color_converter::to_hsi(color_manipulation::color_calculation::subtract(color_manipulation::color_converter::to_hsv(color1), color_manipulation::color_converter::to_hsv(color2), weight));
+	return color_manipulation::color_converter::to_hsi(color_manipulation::color_calculation::subtract(color_manipulation::color_converter::to_hsv(color1), color_manipulation::color_converter::to_hsv(color2), weight, include_alpha));
 }
 
 color_space::hsv * color_manipulation::color_calculation::subtract(color_space::hsv * color1, color_space::hsv * color2, float weight, bool include_alpha)
@@ -472,14 +472,14 @@ color_space::hsl * color_manipulation::color_calculation::subtract(color_space::
 {
 	if (weight < 0.f || weight > 1.f) throw new std::invalid_argument("Parameter weight has to be in the range [0,1].");
 
-	return color_manipulation::color_converter::to_hsl(color_manipulation::color_calculation::subtract(color_manipulation::color_converter::to_hsv(color1), color_manipulation::color_converter::to_hsv(color2), weight));
+	return color_manipulation::color_converter::to_hsl(color_manipulation::color_calculation::subtract(color_manipulation::color_converter::to_hsv(color1), color_manipulation::color_converter::to_hsv(color2), weight, include_alpha));
 }
 
 color_space::hcy * color_manipulation::color_calculation::subtract(color_space::hcy * color1, color_space::hcy * color2, float weight, bool include_alpha)
 {
 	if (weight < 0.f || weight > 1.f) throw new std::invalid_argument("Parameter weight has to be in the range [0,1].");
 
-	return color_manipulation::color_converter::to_hcy(color_manipulation::color_calculation::subtract(color_manipulation::color_converter::to_hsv(color1), color_manipulation::color_converter::to_hsv(color2), weight));
+	return color_manipulation::color_converter::to_hcy(color_manipulation::color_calculation::subtract(color_manipulation::color_converter::to_hsv(color1), color_manipulation::color_converter::to_hsv(color2), weight, include_alpha));
 }
 
 color_space::xyz * color_manipulation::color_calculation::subtract(color_space::xyz * color1, color_space::xyz * color2, float weight, bool include_alpha)
@@ -522,21 +522,21 @@ color_space::lab * color_manipulation::color_calculation::subtract(color_space::
 {
 	if (weight < 0.f || weight > 1.f) throw new std::invalid_argument("Parameter weight has to be in the range [0,1].");
 
-	return color_manipulation::color_converter::to_lab(color_manipulation::color_calculation::subtract(color_manipulation::color_converter::to_xyz(color1), color_manipulation::color_converter::to_xyz(color2), weight));
+	return color_manipulation::color_converter::to_lab(color_manipulation::color_calculation::subtract(color_manipulation::color_converter::to_xyz(color1), color_manipulation::color_converter::to_xyz(color2), weight, include_alpha));
 }
 
 color_space::lch_ab * color_manipulation::color_calculation::subtract(color_space::lch_ab * color1, color_space::lch_ab * color2, float weight, bool include_alpha)
 {
 	if (weight < 0.f || weight > 1.f) throw new std::invalid_argument("Parameter weight has to be in the range [0,1].");
 
-	return color_manipulation::color_converter::to_lch_ab(color_manipulation::color_calculation::subtract(color_manipulation::color_converter::to_xyz(color1), color_manipulation::color_converter::to_xyz(color2), weight));
+	return color_manipulation::color_converter::to_lch_ab(color_manipulation::color_calculation::subtract(color_manipulation::color_converter::to_xyz(color1), color_manipulation::color_converter::to_xyz(color2), weight, include_alpha));
 }
 
 color_space::lch_uv * color_manipulation::color_calculation::subtract(color_space::lch_uv * color1, color_space::lch_uv * color2, float weight, bool include_alpha)
 {
 	if (weight < 0.f || weight > 1.f) throw new std::invalid_argument("Parameter weight has to be in the range [0,1].");
 
-	return color_manipulation::color_converter::to_lch_uv(color_manipulation::color_calculation::subtract(color_manipulation::color_converter::to_xyz(color1), color_manipulation::color_converter::to_xyz(color2), weight));
+	return color_manipulation::color_converter::to_lch_uv(color_manipulation::color_calculation::subtract(color_manipulation::color_converter::to_xyz(color1), color_manipulation::color_converter::to_xyz(color2), weight, include_alpha));
 }
 
 color_space::rgb_truecolor * color_manipulation::color_calculation::average_rgb_true(std::vector<color_space::rgb_truecolor*> colors, bool include_alpha)
-- 
2.43.0


From 95d18126f02e104f081ad094b97122cfd022cc1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:35 +0000
Subject: [PATCH 09/41] fix: cmyk average sums alpha, not black, into alpha

---
 ColorMagic/manipulation/color_calculation.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ColorMagic/manipulation/color_calculation.cpp b/ColorMagic/manipulation/color_calculation.cpp
index 05ec45a..59c7f1d 100644
--- a/ColorMagic/manipulation/color_calculation.cpp
+++ b/ColorMagic/manipulation/color_calculation.cpp
@@ -606,7 +606,7 @@ color_space::cmyk * color_manipulation::color_calculation::average_cmyk(std::vec
 		sum[1] += colors[i]->magenta();
 		sum[2] += colors[i]->yellow();
 		sum[3] += colors[i]->black();
-		sum[4] = include_alpha ? sum[3] + colors[i]->alpha() : colors[0]->alpha();
+		sum[4] = include_alpha ? sum[4] + colors[i]->alpha() : colors[0]->alpha();
 	}
 	return new color_space::cmyk(sum[0] / colors.size(), sum[1] / colors.size(), sum[2] / colors.size(), sum[3] / colors.size(), include_alpha ? sum[4] / colors.size() : sum[4], colors[0]->get_rgb_color_space());
 }
-- 
2.43.0


From cc06a8bb402a6b1ca471fcd6741f99b77cec814f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:55 +0000
Subject: [PATCH 10/41] fix: dividing by alpha keeps components in range

---
 ColorMagic/spaces/color_base.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ColorMagic/spaces/color_base.h b/ColorMagic/spaces/color_base.h
index 1d4b030..0d6ea9a 100644
--- a/ColorMagic/spaces/color_base.h
+++ b/ColorMagic/spaces/color_base.h
@@ -210,7 +210,7 @@ namespace color_space
 
 			for (size_t i = 0; i < m_component_vector.size(); ++i)
 			{
-				m_component_vector[i] /= m_alpha;
+				m_component_vector[i] = clamp(m_component_vector[i] / m_alpha, m_max, m_min);
 			}
 		}
 
-- 
2.43.0


From 8ee742699d39fc147d30b002f2990dbf4329d5c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:57 +0000
Subject: [PATCH 11/41] fix: hue, saturation, color and luminosity blending
 check their input like the other modes

---
 ColorMagic/manipulation/color_blend.cpp | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/ColorMagic/manipulation/color_blend.cpp b/ColorMagic/manipulation/color_blend.cpp
index af82a46..0db19bb 100644
--- a/ColorMagic/manipulation/color_blend.cpp
+++ b/ColorMagic/manipulation/color_blend.cpp
@@ -442,6 +442,11 @@ color_space::color_base * color_manipulation::color_blend::custom_componentwise_
 
 color_space::color_base * color_manipulation::color_blend::hue(color_space::color_base * source, color_space::color_base * destination, bool use_source_region, bool use_destination_region)
 {
+	// Check input params
+	if (source == nullptr) throw new std::invalid_argument("source color is null.");
+	if (destination == nullptr) throw new std::invalid_argument("destination color is null.");
+	if (source->get_rgb_color_space() != destination->get_rgb_color_space()) throw new std::invalid_argument("The rgb color space definitions of both colors do not match.");
+
 	color_space::hcy* s_hcy = color_manipulation::color_converter::to_hcy(source);
 	color_space::hcy* d_hcy = color_manipulation::color_converter::to_hcy(destination);
 	color_space::hcy* result = new color_space::hcy(s_hcy->hue(), d_hcy->chroma(), d_hcy->luma(), s_hcy->alpha(), s_hcy->get_rgb_color_space());
@@ -450,6 +455,11 @@ color_space::color_base * color_manipulation::color_blend::hue(color_space::colo
 
 color_space::color_base * color_manipulation::color_blend::saturation(color_space::color_base * source, color_space::color_base * destination, bool use_source_region, bool use_destination_region)
 {
+	// Check input params
+	if (source == nullptr) throw new std::invalid_argument("source color is null.");
+	if (destination == nullptr) throw new std::invalid_argument("destination color is null.");
+	if (source->get_rgb_color_space() != destination->get_rgb_color_space()) throw new std::invalid_argument("The rgb color space definitions of both colors do not match.");
+
 	color_space::hcy* s_hcy = color_manipulation::color_converter::to_hcy(source);
 	color_space::hcy* d_hcy = color_manipulation::color_converter::to_hcy(destination);
 	color_space::hcy* result = new color_space::hcy(d_hcy->hue(), s_hcy->chroma(), d_hcy->luma(), s_hcy->alpha(), s_hcy->get_rgb_color_space());
@@ -458,6 +468,11 @@ color_space::color_base * color_manipulation::color_blend::saturation(color_spac
 
 color_space::color_base * color_manipulation::color_blend::color(color_space::color_base * source, color_space::color_base * destination, bool use_source_region, bool use_destination_region)
 {
+	// Check input params
+	if (source == nullptr) throw new std::invalid_argument("source color is null.");
+	if (destination == nullptr) throw new std::invalid_argument("destination color is null.");
+	if (source->get_rgb_color_space() != destination->get_rgb_color_space()) throw new std::invalid_argument("The rgb color space definitions of both colors do not match.");
+
 	color_space::hcy* s_hcy = color_manipulation::color_converter::to_hcy(source);
 	color_space::hcy* d_hcy = color_manipulation::color_converter::to_hcy(destination);
 	color_space::hcy* result = new color_space::hcy(s_hcy->hue(), s_hcy->chroma(), d_hcy->luma(), s_hcy->alpha(), s_hcy->get_rgb_color_space());
@@ -466,6 +481,11 @@ color_space::color_base * color_manipulation::color_blend::color(color_space::co
 
 color_space::color_base * color_manipulation::color_blend::luminosity(color_space::color_base * source, color_space::color_base * destination, bool use_source_region, bool use_destination_region)
 {
+	// Check input params
+	if (source == nullptr) throw new std::invalid_argument("source color is null.");
+	if (destination == nullptr) throw new std::invalid_argument("destination color is null.");
+	if (source->get_rgb_color_space() != destination->get_rgb_color_space()) throw new std::invalid_argument("The rgb color space definitions of both colors do not match.");
+
 	color_space::hcy* s_hcy = color_manipulation::color_converter::to_hcy(source);
 	color_space::hcy* d_hcy = color_manipulation::color_converter::to_hcy(destination);
 	color_space::hcy* result = new color_space::hcy(d_hcy->hue(), d_hcy->chroma(), s_hcy->luma(), s_hcy->alpha(), s_hcy->get_rgb_color_space());
-- 
2.43.0


From ab3fac996e1b9e537c50d1c6a5292f189b123f4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:13 +0000
Subject: [PATCH 12/41] fix: add the achromatic part when converting HSI to RGB

---
 ColorMagic/manipulation/color_converter.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ColorMagic/manipulation/color_converter.cpp b/ColorMagic/manipulation/color_converter.cpp
index 0999219..f2a5e70 100644
--- a/ColorMagic/manipulation/color_converter.cpp
+++ b/ColorMagic/manipulation/color_converter.cpp
@@ -488,7 +488,8 @@ color_space::rgb_deepcolor* color_manipulation::color_converter::hsi_to_rgb_deep
 	else if (h_temp > 5.f && h_temp <= 6.f) { r_temp = chroma;	g_temp = 0.f;		b_temp = x; }
 	else { r_temp = 0.f;		g_temp = 0.f;		b_temp = 0.f; }
 
-	return new color_space::rgb_deepcolor(r_temp, g_temp, b_temp, color->alpha(), color->get_rgb_color_space());
+	auto m = color->intensity()* (1.f - color->saturation());
+	return new color_space::rgb_deepcolor(r_temp + m, g_temp + m, b_temp + m, color->alpha(), color->get_rgb_color_space());
 }
 
 color_space::grey_truecolor* color_manipulation::color_converter::hsi_to_grey_true(color_space::hsi* color)
-- 
2.43.0


From 6a4cad8b3ce4f9f4692c42b6836b54cd73385be7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:01 +0000
Subject: [PATCH 13/41] fix: use the saturation when converting HSL to HSV

---
 ColorMagic/manipulation/color_converter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ColorMagic/manipulation/color_converter.cpp b/ColorMagic/manipulation/color_converter.cpp
index f2a5e70..31e5e05 100644
--- a/ColorMagic/manipulation/color_converter.cpp
+++ b/ColorMagic/manipulation/color_converter.cpp
@@ -708,7 +708,7 @@ color_space::hsi* color_manipulation::color_converter::hsl_to_hsi(color_space::h
 color_space::hsv* color_manipulation::color_converter::hsl_to_hsv(color_space::hsl* color)
 {
 	auto l_temp = color->lightness()* 2.f;
-	auto m_sat = color->saturation()* (l_temp <= 1.f) ? l_temp : (2.f - l_temp);
+	auto m_sat = color->saturation()* ((l_temp <= 1.f) ? l_temp : (2.f - l_temp));
 	auto v = (l_temp + m_sat) / 2.f;
 	auto s = (2.f* m_sat) / (l_temp + m_sat);
 	return new color_space::hsv(color->hue(), s, v, color->alpha(), color->get_rgb_color_space());
-- 
2.43.0


From a6ff34550c64b009a987a7b67c1d10d41658bc2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:03 +0000
Subject: [PATCH 14/41] fix: compute CIELUV from the luminance and the v' of
 the reference white and handle black

---
 ColorMagic/manipulation/color_converter.cpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/ColorMagic/manipulation/color_converter.cpp b/ColorMagic/manipulation/color_converter.cpp
index 31e5e05..14fbffa 100644
--- a/ColorMagic/manipulation/color_converter.cpp
+++ b/ColorMagic/manipulation/color_converter.cpp
@@ -904,7 +904,13 @@ color_space::xyy* color_manipulation::color_converter::xyz_to_xyy(color_space::x
 
 color_space::cieluv* color_manipulation::color_converter::xyz_to_cieluv(color_space::xyz* color)
 {
-	auto y_temp = color->x() / color->get_rgb_color_space()->get_white_point()->get_tristimulus_y();
+	if (color->x() == 0.f && color->y() == 0.f && color->z() == 0.f)
+	{
+		// special case for black (the chromaticity is undefined)
+		return new color_space::cieluv(0.f, 0.f, 0.f, color->alpha(), color->get_rgb_color_space());
+	}
+
+	auto y_temp = color->y() / color->get_rgb_color_space()->get_white_point()->get_tristimulus_y();
 	auto u_temp = 4.f* color->x() / (color->x() + 15.f* color->y() + 3.f* color->z());
 	auto v_temp = 9.f* color->y() / (color->x() + 15.f* color->y() + 3.f* color->z());
 
@@ -913,7 +919,7 @@ color_space::cieluv* color_manipulation::color_converter::xyz_to_cieluv(color_sp
 			15.f* color->get_rgb_color_space()->get_white_point()->get_tristimulus_y() +
 			3.f* color->get_rgb_color_space()->get_white_point()->get_tristimulus_z());
 
-	auto v_w_temp = 4.f* color->get_rgb_color_space()->get_white_point()->get_tristimulus_y() /
+	auto v_w_temp = 9.f* color->get_rgb_color_space()->get_white_point()->get_tristimulus_y() /
 		(color->get_rgb_color_space()->get_white_point()->get_tristimulus_x() +
 			15.f* color->get_rgb_color_space()->get_white_point()->get_tristimulus_y() +
 			3.f* color->get_rgb_color_space()->get_white_point()->get_tristimulus_z());
@@ -1075,6 +1081,12 @@ color_space::hcy* color_manipulation::color_converter::cieluv_to_hcy(color_space
 
 color_space::xyz* color_manipulation::color_converter::cieluv_to_xyz(color_space::cieluv* color)
 {
+	if (color->L() == 0.f)
+	{
+		// special case for black (set X, Y and Z to 0)
+		return new color_space::xyz(0.f, 0.f, 0.f, color->alpha(), color->get_rgb_color_space());
+	}
+
 	auto u_temp = 4.f* color->get_rgb_color_space()->get_white_point()->get_tristimulus_x() /
 		(color->get_rgb_color_space()->get_white_point()->get_tristimulus_x() +
 			15.f* color->get_rgb_color_space()->get_white_point()->get_tristimulus_y() +
-- 
2.43.0


From 559c54b94606b89a23efc4f825c7f4e9374c156b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:04 +0000
Subject: [PATCH 15/41] fix: polar coordinates of Lab and CIELUV keep the
 chroma and give the hue in degrees

---
 ColorMagic/manipulation/color_converter.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/ColorMagic/manipulation/color_converter.cpp b/ColorMagic/manipulation/color_converter.cpp
index 14fbffa..d1b542a 100644
--- a/ColorMagic/manipulation/color_converter.cpp
+++ b/ColorMagic/manipulation/color_converter.cpp
@@ -1126,8 +1126,7 @@ color_space::lch_ab* color_manipulation::color_converter::cieluv_to_lch_ab(color
 color_space::lch_uv* color_manipulation::color_converter::cieluv_to_lch_uv(color_space::cieluv* color)
 {
 	auto chroma = sqrtf(powf(color->u(), 2.f) + powf(color->v(), 2.f));
-	chroma = transform_range(chroma, color->get_component_min(), color->get_component_max(), 0.f, 100.f);
-	auto hue = atan2f(color->v(), color->u());
+	auto hue = atan2f(color->v(), color->u())* 180.f / (float)M_PI;
 	if (hue < 0.f) hue += 360.f;
 
 	auto lch = new color_space::lch_uv(color->L(), chroma, hue, 0.f, color->get_rgb_color_space());
@@ -1205,8 +1204,7 @@ color_space::xyy* color_manipulation::color_converter::lab_to_xyy(color_space::l
 color_space::lch_ab* color_manipulation::color_converter::lab_to_lch_ab(color_space::lab* color)
 {
 	auto chroma = sqrtf(powf(color->a(), 2.f) + powf(color->b(), 2.f));
-	chroma = transform_range(chroma, color->get_component_min(), color->get_component_max(), 0.f, 100.f);
-	auto hue = atan2f(color->b(), color->a());
+	auto hue = atan2f(color->b(), color->a())* 180.f / (float)M_PI;
 	if (hue < 0.f) hue += 360.f;
 
 	auto lch = new color_space::lch_ab(color->luminance(), chroma, hue, 0.f, color->get_rgb_color_space());
-- 
2.43.0


From dbfdd2e0c8c27c83567c8f00318131cfe9f4a067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:46 +0000
Subject: [PATCH 16/41] fix: euclidean_distance honours the calculation space

---
 ColorMagic/manipulation/color_distance.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ColorMagic/manipulation/color_distance.cpp b/ColorMagic/manipulation/color_distance.cpp
index d17a8b1..b7a5a9c 100644
--- a/ColorMagic/manipulation/color_distance.cpp
+++ b/ColorMagic/manipulation/color_distance.cpp
@@ -39,7 +39,7 @@ float color_manipulation::color_distance::euclidean_distance(color_space::color_
 {
 	if (color1 == color2) return 0.f; // both colors have same type and are equal
 
-	return sqrtf(euclidean_distance_squared(color1, color2));
+	return sqrtf(euclidean_distance_squared(color1, color2, calculation_space));
 }
 
 float color_manipulation::color_distance::euclidean_distance_weighted(color_space::color_base * color1, color_space::color_base * color2)
-- 
2.43.0


From 638e3d949060a581cfd525ba5ae77831cdcefdca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:48 +0000
Subject: [PATCH 17/41] fix: CIE94 and CMC distances of colors with equal hue
 are no longer NaN

---
 ColorMagic/manipulation/color_distance.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ColorMagic/manipulation/color_distance.cpp b/ColorMagic/manipulation/color_distance.cpp
index b7a5a9c..127a37b 100644
--- a/ColorMagic/manipulation/color_distance.cpp
+++ b/ColorMagic/manipulation/color_distance.cpp
@@ -93,7 +93,7 @@ float color_manipulation::color_distance::cielab_delta_e_cie94(color_space::colo
 	auto c1 = sqrtf(powf(color1_lab->a(), 2.f) + powf(color1_lab->b(), 2.f));
 	auto c2 = sqrtf(powf(color2_lab->a(), 2.f) + powf(color2_lab->b(), 2.f));
 	auto delta_c = c1 - c2;
-	auto delta_h = sqrtf(powf(color1_lab->a() - color2_lab->a(), 2.f) + powf(color1_lab->b() - color2_lab->b(), 2.f) - powf(delta_c, 2.f));
+	auto delta_h = sqrtf(fmaxf(0.f, powf(color1_lab->a() - color2_lab->a(), 2.f) + powf(color1_lab->b() - color2_lab->b(), 2.f) - powf(delta_c, 2.f)));
 	auto sc = 1.f + k1 * c1;
 	auto sh = 1.f + k2 * c1;
 
@@ -178,7 +178,7 @@ float color_manipulation::color_distance::cmc_delta_e_lc84(color_space::color_ba
 	auto delta_C = C1 - C2;
 	auto delta_a = color1_lab->a() - color2_lab->a();
 	auto delta_b = color1_lab->b() - color2_lab->b();
-	auto delta_H = sqrtf(powf(delta_a, 2.f) + powf(delta_b, 2.f) - powf(delta_C, 2.f));
+	auto delta_H = sqrtf(fmaxf(0.f, powf(delta_a, 2.f) + powf(delta_b, 2.f) - powf(delta_C, 2.f)));
 	auto delta_L = color1_lab->luminance() - color2_lab->luminance();
 
 	auto H = to_deg(atan2(color1_lab->b(), color1_lab->a()));
-- 
2.43.0


From 0ded5e59920e6e3bb11ec2111335a4c85987af27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:39 +0000
Subject: [PATCH 18/41] fix: adjusting hsl colors in hsl space leaves the input
 color alone

---
 ColorMagic/manipulation/color_adjustments.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ColorMagic/manipulation/color_adjustments.cpp b/ColorMagic/manipulation/color_adjustments.cpp
index 815adbe..e4b81a3 100644
--- a/ColorMagic/manipulation/color_adjustments.cpp
+++ b/ColorMagic/manipulation/color_adjustments.cpp
@@ -27,7 +27,7 @@ color_space::color_base * color_manipulation::color_adjustments::saturate_in_hsl
 {
 	if (percentage == 0.f) return color;
 
-	auto color_hsl = static_cast<color_space::hsl*>(color_manipulation::color_converter::convertTo(color, color_type::HSL));
+	auto color_hsl = new color_space::hsl(*static_cast<color_space::hsl*>(color_manipulation::color_converter::convertTo(color, color_type::HSL))); // copy, hsl colors are returned as they are
 
 	auto factor = 1.f + percentage;
 	color_hsl->saturation(color_hsl->saturation() * factor);
@@ -61,7 +61,7 @@ color_space::color_base * color_manipulation::color_adjustments::luminate_in_hsl
 {
 	if (percentage == 0.f) return color;
 
-	auto color_hsl = static_cast<color_space::hsl*>(color_manipulation::color_converter::convertTo(color, color_type::HSL));
+	auto color_hsl = new color_space::hsl(*static_cast<color_space::hsl*>(color_manipulation::color_converter::convertTo(color, color_type::HSL))); // copy, hsl colors are returned as they are
 
 	auto factor = 1.f + percentage;
 	color_hsl->lightness(color_hsl->lightness() * factor);
-- 
2.43.0


From 0d4c90f57640c8c407b80c4d48162ce848adbbad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:40 +0000
Subject: [PATCH 19/41] fix: color combinations keep the opacity of 8 bit
 colors

---
 ColorMagic/manipulation/color_combinations.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/ColorMagic/manipulation/color_combinations.cpp b/ColorMagic/manipulation/color_combinations.cpp
index 90daf8d..396ebe4 100644
--- a/ColorMagic/manipulation/color_combinations.cpp
+++ b/ColorMagic/manipulation/color_combinations.cpp
@@ -36,7 +36,7 @@ std::vector<color_space::color_base*> color_manipulation::color_combinations::cr
 
 	for (auto i = 1; i <= number_of_colors - 1; ++i)
 	{
-		auto new_color = new color_space::hsl(color_hsl->hue() + (i * degrees), color_hsl->saturation(), color_hsl->lightness(), color->alpha(), color->get_rgb_color_space());
+		auto new_color = new color_space::hsl(color_hsl->hue() + (i * degrees), color_hsl->saturation(), color_hsl->lightness(), color_hsl->alpha(), color->get_rgb_color_space());
 		combination.push_back(color_manipulation::color_converter::convertTo(new_color, color->get_color_type()));
 	}
 
@@ -51,9 +51,9 @@ std::vector<color_space::color_base*> color_manipulation::color_combinations::cr
 	std::vector<color_space::color_base*> triplet;
 	auto color_hsl = static_cast<color_space::hsl*>(color_manipulation::color_converter::convertTo(base_color, color_type::HSL));
 
-	triplet.push_back(color_manipulation::color_converter::convertTo(new color_space::hsl(color_hsl->hue() - distance_between, color_hsl->saturation(), color_hsl->lightness(), base_color->alpha(), base_color->get_rgb_color_space()), base_color->get_color_type()));
+	triplet.push_back(color_manipulation::color_converter::convertTo(new color_space::hsl(color_hsl->hue() - distance_between, color_hsl->saturation(), color_hsl->lightness(), color_hsl->alpha(), base_color->get_rgb_color_space()), base_color->get_color_type()));
 	triplet.push_back(base_color);
-	triplet.push_back(color_manipulation::color_converter::convertTo(new color_space::hsl(color_hsl->hue() + distance_between, color_hsl->saturation(), color_hsl->lightness(), base_color->alpha(), base_color->get_rgb_color_space()), base_color->get_color_type()));
+	triplet.push_back(color_manipulation::color_converter::convertTo(new color_space::hsl(color_hsl->hue() + distance_between, color_hsl->saturation(), color_hsl->lightness(), color_hsl->alpha(), base_color->get_rgb_color_space()), base_color->get_color_type()));
 
 	return triplet;
 }
@@ -75,13 +75,13 @@ std::vector<color_space::color_base*> color_manipulation::color_combinations::cr
 		switch (mode)
 		{
 		case 0:
-			combination.push_back(color_converter::convertTo(color_adjustments::saturate_in_hsl_space(new color_space::hsl(last_hsl->hue(), last_hsl->saturation(), last_hsl->lightness(), base_color->alpha(), base_color->get_rgb_color_space()), amount), in_color_type));
+			combination.push_back(color_converter::convertTo(color_adjustments::saturate_in_hsl_space(new color_space::hsl(last_hsl->hue(), last_hsl->saturation(), last_hsl->lightness(), last_hsl->alpha(), base_color->get_rgb_color_space()), amount), in_color_type));
 			break;
 		case 1:
-			combination.push_back(color_converter::convertTo(color_adjustments::luminate_in_hsl_space(new color_space::hsl(last_hsl->hue(), last_hsl->saturation(), last_hsl->lightness(), base_color->alpha(), base_color->get_rgb_color_space()), amount), in_color_type));
+			combination.push_back(color_converter::convertTo(color_adjustments::luminate_in_hsl_space(new color_space::hsl(last_hsl->hue(), last_hsl->saturation(), last_hsl->lightness(), last_hsl->alpha(), base_color->get_rgb_color_space()), amount), in_color_type));
 			break;
 		case 2:
-			combination.push_back(color_converter::convertTo(color_adjustments::luminate_in_hsl_space(color_adjustments::saturate_in_hsl_space(new color_space::hsl(last_hsl->hue(), last_hsl->saturation(), last_hsl->lightness(), base_color->alpha(), base_color->get_rgb_color_space()), amount), amount), in_color_type));
+			combination.push_back(color_converter::convertTo(color_adjustments::luminate_in_hsl_space(color_adjustments::saturate_in_hsl_space(new color_space::hsl(last_hsl->hue(), last_hsl->saturation(), last_hsl->lightness(), last_hsl->alpha(), base_color->get_rgb_color_space()), amount), amount), in_color_type));
 			break;
 		default:
 			throw new std::invalid_argument("Invalid mode.");;
-- 
2.43.0


From 1515f907510e401babee8737f2bca14196ada36a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:43 +0000
Subject: [PATCH 20/41] fix: color combinations reject negative color counts

---
 ColorMagic/manipulation/color_combinations.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ColorMagic/manipulation/color_combinations.cpp b/ColorMagic/manipulation/color_combinations.cpp
index 396ebe4..0607a6c 100644
--- a/ColorMagic/manipulation/color_combinations.cpp
+++ b/ColorMagic/manipulation/color_combinations.cpp
@@ -23,7 +23,7 @@ std::vector<color_space::color_base*> color_manipulation::color_combinations::cr
 
 std::vector<color_space::color_base*> color_manipulation::color_combinations::create_combination(color_space::color_base * color, int number_of_colors)
 {
-	if (number_of_colors == 0) throw new std::invalid_argument("A color combination with 0 colors in it is invalid. Chose a color count >= 2");
+	if (number_of_colors <= 0) throw new std::invalid_argument("A color combination with 0 colors in it is invalid. Chose a color count >= 2");
 	if (number_of_colors == 1) throw new std::invalid_argument("A color combination with 1 colors in it is invalid since it would just return the input color. Chose a color count >= 2");
 	if (number_of_colors > 360) throw new std::invalid_argument("A color combination with more than 360 colors is invalid.");
 
-- 
2.43.0


From 157980e0926f2cc4f6aff05e4da35b1bd9ca858c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:45 +0000
Subject: [PATCH 21/41] fix: inserting values into a matrix that is not square

---
 ColorMagic/utils/matrix.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ColorMagic/utils/matrix.h b/ColorMagic/utils/matrix.h
index 199565c..656245e 100644
--- a/ColorMagic/utils/matrix.h
+++ b/ColorMagic/utils/matrix.h
@@ -513,7 +513,7 @@ public:
 			{
 				for (int j = 0; j < m_columns; j++)
 				{
-					this->m_values[i][j] = values[i * m_rows + j];
+					this->m_values[i][j] = values[i * m_columns + j];
 				}
 			}
 		}
-- 
2.43.0


From 543c3b73197c199cc3096c3b898bc12b519ebb43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:59 +0000
Subject: [PATCH 22/41] fix: multiplying matrices that are not square

---
 ColorMagic/utils/matrix.h | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/ColorMagic/utils/matrix.h b/ColorMagic/utils/matrix.h
index 656245e..5c022b9 100644
--- a/ColorMagic/utils/matrix.h
+++ b/ColorMagic/utils/matrix.h
@@ -213,15 +213,16 @@ public:
 	//! Multiply two matrices
 	matrix<T> operator*(const matrix<T>& other)
 	{
-		int rows = other.rows();
+		if (m_columns != other.rows()) throw std::invalid_argument("Matrix: The column count of the left matrix does not match the row count of the right matrix.");
+
 		int cols = other.columns();
-		matrix result(rows, cols);
+		matrix result(m_rows, cols);
 
-		for (int i = 0; i < rows; i++)
+		for (int i = 0; i < m_rows; i++)
 		{
 			for (int j = 0; j < cols; j++)
 			{
-				for (int k = 0; k < rows; k++)
+				for (int k = 0; k < m_columns; k++)
 				{
 					result(i, j) += this->m_values[i][k] * other(k, j);
 				}
-- 
2.43.0


From ea2fded250852012da867a93e8fba580f8e12bd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:11 +0000
Subject: [PATCH 23/41] fix: multiplying a matrix that is not square with a
 vector

---
 ColorMagic/utils/matrix.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ColorMagic/utils/matrix.h b/ColorMagic/utils/matrix.h
index 5c022b9..9ed847f 100644
--- a/ColorMagic/utils/matrix.h
+++ b/ColorMagic/utils/matrix.h
@@ -311,7 +311,9 @@ public:
 	*/
 	std::vector<T> operator*(const std::vector<T>& other)
 	{
-		std::vector<T> result(other.size());
+		if (m_columns != static_cast<int>(other.size())) throw std::invalid_argument("Matrix: The column count of the matrix does not match the size of the vector.");
+
+		std::vector<T> result(m_rows);
 
 		for (int i = 0; i < m_rows; i++)
 		{
-- 
2.43.0


From ab573771e94228c2118303f94bfc13b5f85cd3c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:25 +0000
Subject: [PATCH 24/41] fix: transposing a matrix that is not square

---
 ColorMagic/utils/matrix.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ColorMagic/utils/matrix.h b/ColorMagic/utils/matrix.h
index 9ed847f..5820f75 100644
--- a/ColorMagic/utils/matrix.h
+++ b/ColorMagic/utils/matrix.h
@@ -346,11 +346,11 @@ public:
 	*/
 	matrix<T> transpose()
 	{
-		matrix result(m_rows, m_columns);
+		matrix result(m_columns, m_rows);
 
-		for (int i = 0; i < m_rows; i++)
+		for (int i = 0; i < m_columns; i++)
 		{
-			for (int j = 0; j < m_columns; j++)
+			for (int j = 0; j < m_rows; j++)
 			{
 				result(i, j) = this->m_values[j][i];
 			}
-- 
2.43.0


From fd70a0456607c01d7983320284bd62b7413814a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:38 +0000
Subject: [PATCH 25/41] fix: matrix indices are checked for being negative and
 the error message does not read past its text

---
 ColorMagic/utils/matrix.h | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/ColorMagic/utils/matrix.h b/ColorMagic/utils/matrix.h
index 5820f75..b4355ce 100644
--- a/ColorMagic/utils/matrix.h
+++ b/ColorMagic/utils/matrix.h
@@ -6,6 +6,7 @@
 #pragma once
 #include <vector>
 #include <stdexcept>
+#include <string>
 
 template <typename T> class matrix
 {
@@ -110,16 +111,16 @@ public:
 	//! Accessment operator
 	T& operator() (int row, int column)
 	{
-		if (row >= m_rows) throw std::out_of_range(std::string("Matrix: %d is >= row count of matrix.", row));
-		if (column >= m_columns) throw std::out_of_range(std::string("Matrix: %d is >= column count of matrix.", column));
+		if (row < 0 || row >= m_rows) throw std::out_of_range("Matrix: " + std::to_string(row) + " is not a row of the matrix.");
+		if (column < 0 || column >= m_columns) throw std::out_of_range("Matrix: " + std::to_string(column) + " is not a column of the matrix.");
 		return m_values[row][column];
 	}
 
 	//! Accessment operator
 	const T& operator() (int row, int column) const
 	{
-		if (row >= m_rows) throw std::out_of_range(std::string("Matrix: %d is >= row count of matrix.", row));
-		if (column >= m_columns) throw std::out_of_range(std::string("Matrix: %d is >= column count of matrix.", column));
+		if (row < 0 || row >= m_rows) throw std::out_of_range("Matrix: " + std::to_string(row) + " is not a row of the matrix.");
+		if (column < 0 || column >= m_columns) throw std::out_of_range("Matrix: " + std::to_string(column) + " is not a column of the matrix.");
 		return m_values[row][column];
 	}
 
-- 
2.43.0


From 1bb61b4a5eb1a92619992f4e0833740a7ae4acfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:51 +0000
Subject: [PATCH 26/41] fix: gamma curves with missing parts can be sorted

---
 ColorMagic/spaces/gamma.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ColorMagic/spaces/gamma.h b/ColorMagic/spaces/gamma.h
index 02dcbc5..aeb29b7 100644
--- a/ColorMagic/spaces/gamma.h
+++ b/ColorMagic/spaces/gamma.h
@@ -352,13 +352,13 @@ namespace color_space
 		//! Sort the default gamma parts in ascending order depending on the upper border.
 		void sort_gamma_parts()
 		{
-			std::sort(m_gamma_curve_parts.begin(), m_gamma_curve_parts.end(), [](gamma_part* gp1, gamma_part* gp2) { return (*gp1) < (*gp2); });
+			std::sort(m_gamma_curve_parts.begin(), m_gamma_curve_parts.end(), [](gamma_part* gp1, gamma_part* gp2) { return (gp1 != nullptr && gp2 != nullptr) ? (*gp1) < (*gp2) : (gp1 != nullptr && gp2 == nullptr); });
 		}
 
 		//! Sort the inverse gamma parts in ascending order depending on the upper border.
 		void sort_inverse_gamma_parts()
 		{
-			std::sort(m_inverse_gamma_curve_parts.begin(), m_inverse_gamma_curve_parts.end(), [](gamma_part* gp1, gamma_part* gp2) { return (*gp1) < (*gp2); });
+			std::sort(m_inverse_gamma_curve_parts.begin(), m_inverse_gamma_curve_parts.end(), [](gamma_part* gp1, gamma_part* gp2) { return (gp1 != nullptr && gp2 != nullptr) ? (*gp1) < (*gp2) : (gp1 != nullptr && gp2 == nullptr); });
 		}
 
 		//! The default gamma parts in ascending order depending on their upper border.
-- 
2.43.0


From 977bbf0fe91c6f3b44ed2c5e6ea5565349c15715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:05 +0000
Subject: [PATCH 27/41] fix: gamma parts with different functions without state
 are not equal

---
 ColorMagic/spaces/gamma.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ColorMagic/spaces/gamma.h b/ColorMagic/spaces/gamma.h
index aeb29b7..0550d89 100644
--- a/ColorMagic/spaces/gamma.h
+++ b/ColorMagic/spaces/gamma.h
@@ -59,13 +59,13 @@ namespace color_space
 		//! Equality operator
 		friend bool operator==(const gamma_part& lhs, const gamma_part& rhs)
 		{
-			return lhs.get_upper_border() == rhs.get_upper_border() && lhs.get_gamma_function_address() == rhs.get_gamma_function_address();
+			return lhs.get_upper_border() == rhs.get_upper_border() && lhs.get_gamma_function().target_type() == rhs.get_gamma_function().target_type() && lhs.get_gamma_function_address() == rhs.get_gamma_function_address();
 		}
 
 		//! Equality operator
 		friend bool operator==(gamma_part& lhs, gamma_part& rhs)
 		{
-			return lhs.get_upper_border() == rhs.get_upper_border() && lhs.get_gamma_function_address() == rhs.get_gamma_function_address();
+			return lhs.get_upper_border() == rhs.get_upper_border() && lhs.get_gamma_function().target_type() == rhs.get_gamma_function().target_type() && lhs.get_gamma_function_address() == rhs.get_gamma_function_address();
 		}
 
 		//! Inequality operator
-- 
2.43.0


From 6ece9d712fb22d9e96df7f409f4b511fc0d16107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:19 +0000
Subject: [PATCH 28/41] fix: the inverse of the Romm gamma curve switches at
 the border of the curve

---
 ColorMagic/spaces/gamma.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ColorMagic/spaces/gamma.h b/ColorMagic/spaces/gamma.h
index 0550d89..c3c5480 100644
--- a/ColorMagic/spaces/gamma.h
+++ b/ColorMagic/spaces/gamma.h
@@ -450,7 +450,7 @@ namespace color_space
 			return new gamma(g, ig);
 		}
 
-		//! Returns the Romm gamma function that consists of two parts with a border at 0.001953f.
+		//! Returns the Romm gamma function that consists of two parts with a border at 0.001953f or 0.031248f.
 		gamma* gammaRomm()
 		{
 			std::vector<gamma_part*> g;
@@ -459,7 +459,7 @@ namespace color_space
 			g.push_back(new gamma_part([](float input) { return 16.f * input; }, 0.001953f));
 			g.push_back(new gamma_part([](float input) { return std::powf(input, 1.f / 1.8f); }, 1.f));
 
-			ig.push_back(new gamma_part([](float input) { return input / 16.f; }, 0.001953f));
+			ig.push_back(new gamma_part([](float input) { return input / 16.f; }, 0.031248f));
 			ig.push_back(new gamma_part([](float input) { return std::powf(input, 1.8f); }, 1.f));
 
 			return new gamma(g, ig);
-- 
2.43.0


From 5126df47ebd591f65840fff2022b4535a0e06598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:32 +0000
Subject: [PATCH 29/41] fix: the UHDTV gamma curve and its inverse were swapped

---
 ColorMagic/spaces/gamma.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/ColorMagic/spaces/gamma.h b/ColorMagic/spaces/gamma.h
index c3c5480..0cadfc8 100644
--- a/ColorMagic/spaces/gamma.h
+++ b/ColorMagic/spaces/gamma.h
@@ -465,17 +465,17 @@ namespace color_space
 			return new gamma(g, ig);
 		}
 
-		//! Returns the UHDTV gamma function that consists of two parts with a border at 0.081f or 0.018053968510807f.
+		//! Returns the UHDTV gamma function that consists of two parts with a border at 0.018053968510807f or 0.081f.
 		gamma* gammaUHDTV()
 		{
 			std::vector<gamma_part*> g;
 			std::vector<gamma_part*> ig;
 
-			g.push_back(new gamma_part([](float input) { return input / 4.5f; }, 0.081f));
-			g.push_back(new gamma_part([](float input) { return std::powf((input + 0.099f) / 1.099f, 1.f / 0.45f); }, 1.f));
+			g.push_back(new gamma_part([](float input) { return 4.5f * input; }, 0.018053968510807f));
+			g.push_back(new gamma_part([](float input) { return 1.099f * std::powf(input, 0.45f) - 0.099f; }, 1.f));
 
-			ig.push_back(new gamma_part([](float input) { return 4.5f * input; }, 0.018053968510807f));
-			ig.push_back(new gamma_part([](float input) { return 1.099f * std::powf(input, 0.45f) - 0.099f; }, 1.f));
+			ig.push_back(new gamma_part([](float input) { return input / 4.5f; }, 0.081f));
+			ig.push_back(new gamma_part([](float input) { return std::powf((input + 0.099f) / 1.099f, 1.f / 0.45f); }, 1.f));
 
 			return new gamma(g, ig);
 		}
-- 
2.43.0


From 6184832645923e98b2ee43d180430f7d6519d7f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:46 +0000
Subject: [PATCH 30/41] fix: tristimulus values above 1 of white point presets

---
 ColorMagic/spaces/white_point.h | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/ColorMagic/spaces/white_point.h b/ColorMagic/spaces/white_point.h
index 5e6fae7..c6d10b3 100644
--- a/ColorMagic/spaces/white_point.h
+++ b/ColorMagic/spaces/white_point.h
@@ -249,7 +249,7 @@ namespace color_space
 		/*!
 		* Represents incandescent / tungsten (2856 Kelvin)
 		*/
-		white_point* A_2Degree() { return new white_point(0.10985f, 1.f, 0.3558f, 0.4475f, 0.4074f); }
+		white_point* A_2Degree() { return new white_point(1.0985f, 1.f, 0.3558f, 0.4475f, 0.4074f); }
 
 		//! CIE_B tristimulus white (2�)
 		/*!
@@ -269,7 +269,7 @@ namespace color_space
 		/*!
 		* Represents equal energy (5454 Kelvin)
 		*/
-		white_point* E_2Degree() { return new white_point(0.1f, 1.f, 0.1f, 0.3333f, 0.3333f); }
+		white_point* E_2Degree() { return new white_point(1.f, 1.f, 1.f, 0.3333f, 0.3333f); }
 
 		//! CIE_F1 tristimulus white (2�)
 		/*!
@@ -287,13 +287,13 @@ namespace color_space
 		/*!
 		* Represents white fluorescent (3450 Kelvin)
 		*/
-		white_point* F3_2Degree() { return new white_point(0.10375f, 1.f, 0.4986f, 0.4090f, 0.3943f); }
+		white_point* F3_2Degree() { return new white_point(1.0375f, 1.f, 0.4986f, 0.4090f, 0.3943f); }
 
 		//! CIE_F4 tristimulus white (2�)
 		/*!
 		* Represents warm white fluorescent (2940 Kelvin)
 		*/
-		white_point* F4_2Degree() { return new white_point(0.10914f, 1.f, 0.3881f, 0.4401f, 0.4033f); }
+		white_point* F4_2Degree() { return new white_point(1.0914f, 1.f, 0.3881f, 0.4401f, 0.4033f); }
 
 		//! CIE_F5 tristimulus white (2�)
 		/*!
@@ -323,7 +323,7 @@ namespace color_space
 		/*!
 		* Represents cool white deluxe fluorescent (4150 Kelvin)
 		*/
-		white_point* F9_2Degree() { return new white_point(0.10036f, 1.f, 0.6786f, 0.3741f, 0.3728f); }
+		white_point* F9_2Degree() { return new white_point(1.0036f, 1.f, 0.6786f, 0.3741f, 0.3728f); }
 
 		//! CIE_F10 tristimulus white (2�)
 		/*!
@@ -335,13 +335,13 @@ namespace color_space
 		/*!
 		* Represents Philips TL84, Ultralume 40 (4000 Kelvin)
 		*/
-		white_point* F11_2Degree() { return new white_point(0.10096f, 1.f, 0.6437f, 0.3805f, 0.3768f); }
+		white_point* F11_2Degree() { return new white_point(1.0096f, 1.f, 0.6437f, 0.3805f, 0.3768f); }
 
 		//! CIE_F12 tristimulus white (2�)
 		/*!
 		* Represents Philips TL83, Ultralume 30 (3000 Kelvin)
 		*/
-		white_point* F12_2Degree() { return new white_point(0.10804f, 1.f, 0.3922f, 0.4369f, 0.4044f); }
+		white_point* F12_2Degree() { return new white_point(1.0804f, 1.f, 0.3922f, 0.4369f, 0.4044f); }
 
 
 		//! CIE_D50 tristimulus white (10�)
@@ -373,7 +373,7 @@ namespace color_space
 		/*!
 		* Represents incandescent / tungsten (2856 Kelvin)
 		*/
-		white_point* A_10Degree() { return new white_point(0.11114f, 1.f, 0.3520f, 0.4511f, 0.4059f); }
+		white_point* A_10Degree() { return new white_point(1.1114f, 1.f, 0.3520f, 0.4511f, 0.4059f); }
 
 		//! CIE_B tristimulus white (10�)
 		/*!
@@ -393,7 +393,7 @@ namespace color_space
 		/*!
 		* Represents equal energy (5454 Kelvin)
 		*/
-		white_point* E_10Degree() { return new white_point(0.1f, 1.f, 0.1f, 0.3333f, 0.3333f); }
+		white_point* E_10Degree() { return new white_point(1.f, 1.f, 1.f, 0.3333f, 0.3333f); }
 
 		//! CIE_F1 tristimulus white (10�)
 		/*!
@@ -405,19 +405,19 @@ namespace color_space
 		/*!
 		* Represents cool white fluorescent (4230 Kelvin)
 		*/
-		white_point* F2_10Degree() { return new white_point(0.10328f, 1.f, 0.6902f, 0.3792f, 0.3672f); }
+		white_point* F2_10Degree() { return new white_point(1.0328f, 1.f, 0.6902f, 0.3792f, 0.3672f); }
 
 		//! CIE_F3 tristimulus white (10�)
 		/*!
 		* Represents white fluorescent (3450 Kelvin)
 		*/
-		white_point* F3_10Degree() { return new white_point(0.10896f, 1.f, 0.5196f, 0.4175f, 0.3832f); }
+		white_point* F3_10Degree() { return new white_point(1.0896f, 1.f, 0.5196f, 0.4175f, 0.3832f); }
 
 		//! CIE_F4 tristimulus white (10�)
 		/*!
 		* Represents warm white fluorescent (2940 Kelvin)
 		*/
-		white_point* F4_10Degree() { return new white_point(0.11496f, 1.f, 0.4096f, 0.4492f, 0.3907f); }
+		white_point* F4_10Degree() { return new white_point(1.1496f, 1.f, 0.4096f, 0.4492f, 0.3907f); }
 
 		//! CIE_F5 tristimulus white (10�)
 		/*!
@@ -429,7 +429,7 @@ namespace color_space
 		/*!
 		* Represents lite white fluorescent (4150 Kelvin)
 		*/
-		white_point* F6_10Degree() { return new white_point(0.10214f, 1.f, 0.6207f, 0.3865f, 0.3784f); }
+		white_point* F6_10Degree() { return new white_point(1.0214f, 1.f, 0.6207f, 0.3865f, 0.3784f); }
 
 		//! CIE_F7 tristimulus white (10�)
 		/*!
@@ -447,7 +447,7 @@ namespace color_space
 		/*!
 		* Represents cool white deluxe fluorescent (4150 Kelvin)
 		*/
-		white_point* F9_10Degree() { return new white_point(0.10211f, 1.f, 0.6782f, 0.3782f, 0.3704f); }
+		white_point* F9_10Degree() { return new white_point(1.0211f, 1.f, 0.6782f, 0.3782f, 0.3704f); }
 
 		//! CIE_F10 tristimulus white (10�)
 		/*!
@@ -459,12 +459,12 @@ namespace color_space
 		/*!
 		* Represents Philips TL84, Ultralume 40 (4000 Kelvin)
 		*/
-		white_point* F11_10Degree() { return new white_point(0.10386f, 1.f, 0.6562f, 0.3854f, 0.3710f); }
+		white_point* F11_10Degree() { return new white_point(1.0386f, 1.f, 0.6562f, 0.3854f, 0.3710f); }
 
 		//! CIE_F12 tristimulus white (10�)
 		/*!
 		* Represents Philips TL83, Ultralume 30 (3000 Kelvin)
 		*/
-		white_point* F12_10Degree() { return new white_point(0.11142f, 1.f, 0.4035f, 0.4425f, 0.3971f); }
+		white_point* F12_10Degree() { return new white_point(1.1142f, 1.f, 0.4035f, 0.4425f, 0.3971f); }
 	};
 }
\ No newline at end of file
-- 
2.43.0


From 8ad3187f4c2c38f42a1dfed2960014ef7f3a9262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:48 +0000
Subject: [PATCH 31/41] fix: Bradford and CMCCAT97 adaptation normalize by the
 luminance of the color for every color type

---
 .../manipulation/chromatic_adaptation.cpp     | 26 ++++++++++---------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/ColorMagic/manipulation/chromatic_adaptation.cpp b/ColorMagic/manipulation/chromatic_adaptation.cpp
index 38720be..a66b3f8 100644
--- a/ColorMagic/manipulation/chromatic_adaptation.cpp
+++ b/ColorMagic/manipulation/chromatic_adaptation.cpp
@@ -119,9 +119,10 @@ color_space::color_base * color_manipulation::chromatic_adaptation::bradford_ada
 	// Convert to XYZ space and transform using bradford matrix (incl. normalization)
 	auto tmp_color = color_manipulation::color_converter::to_xyz(color);
 	auto rgb_comp = m_bradford * tmp_color->get_component_vector();
-	rgb_comp[0] /= color->get_component_vector()[1];
-	rgb_comp[1] /= color->get_component_vector()[1];
-	rgb_comp[2] /= color->get_component_vector()[1];
+	auto luminance = tmp_color->y() > 0.f ? tmp_color->y() : 1.f; // black is not normalized
+	rgb_comp[0] /= luminance;
+	rgb_comp[1] /= luminance;
+	rgb_comp[2] /= luminance;
 
 	// Create scaled white point vectors (incl. normalization)
 	std::vector<float> source_wp = std::vector<float>();
@@ -140,11 +141,11 @@ color_space::color_base * color_manipulation::chromatic_adaptation::bradford_ada
 	// Adapt color (incl. undo of normalization)
 	auto p = powf(scaled_source_wp[2] / scaled_dest_wp[2], 0.0834f);
 	std::vector<float> tmp_rgb_comp;
-	tmp_rgb_comp.push_back((scaled_dest_wp[0] * (rgb_comp[0] / scaled_source_wp[0])) * color->get_component_vector()[1]);
-	tmp_rgb_comp.push_back((scaled_dest_wp[1] * (rgb_comp[1] / scaled_source_wp[1])) * color->get_component_vector()[1]);
+	tmp_rgb_comp.push_back((scaled_dest_wp[0] * (rgb_comp[0] / scaled_source_wp[0])) * luminance);
+	tmp_rgb_comp.push_back((scaled_dest_wp[1] * (rgb_comp[1] / scaled_source_wp[1])) * luminance);
 
 	float div = rgb_comp[2] / scaled_source_wp[2];
-	tmp_rgb_comp.push_back((scaled_dest_wp[2] * powf(fabsf(div), p)) * color->get_component_vector()[1]); // avoid overflow of float
+	tmp_rgb_comp.push_back((scaled_dest_wp[2] * powf(fabsf(div), p)) * luminance); // avoid overflow of float
 	if (div < 0.f) tmp_rgb_comp[2] *= -1.f;
 
 	auto transformed_components = m_inverted_bradford * tmp_rgb_comp;
@@ -206,9 +207,10 @@ color_space::color_base * color_manipulation::chromatic_adaptation::cmccat97_ada
 	// Convert to XYZ space and transform using cmccat97 matrix (incl. normalization)
 	auto tmp_color = color_manipulation::color_converter::to_xyz(color);
 	auto rgb_comp = m_cmccat97 * tmp_color->get_component_vector();
-	rgb_comp[0] /= color->get_component_vector()[1];
-	rgb_comp[1] /= color->get_component_vector()[1];
-	rgb_comp[2] /= color->get_component_vector()[1];
+	auto luminance = tmp_color->y() > 0.f ? tmp_color->y() : 1.f; // black is not normalized
+	rgb_comp[0] /= luminance;
+	rgb_comp[1] /= luminance;
+	rgb_comp[2] /= luminance;
 
 	// Create scaled white point vectors (incl. normalization)
 	std::vector<float> source_wp = std::vector<float>();
@@ -232,9 +234,9 @@ color_space::color_base * color_manipulation::chromatic_adaptation::cmccat97_ada
 	// Adapt color (incl. undo of normalization)
 	auto p = powf(scaled_source_wp[2] / scaled_dest_wp[2], 0.0834f);
 	std::vector<float> rgbc;
-	rgbc.push_back(color->get_component_vector()[1] * (rgb_comp[0] * (d * (scaled_dest_wp[0] / scaled_source_wp[0]) + 1.f - d)));
-	rgbc.push_back(color->get_component_vector()[1] * (rgb_comp[1] * (d * (scaled_dest_wp[1] / scaled_source_wp[1]) + 1.f - d)));
-	rgbc.push_back(color->get_component_vector()[1] * (powf(fabsf(rgb_comp[2]), p) * (d * (scaled_dest_wp[2] / powf(scaled_source_wp[2], p)) + 1.f - d)));
+	rgbc.push_back(luminance * (rgb_comp[0] * (d * (scaled_dest_wp[0] / scaled_source_wp[0]) + 1.f - d)));
+	rgbc.push_back(luminance * (rgb_comp[1] * (d * (scaled_dest_wp[1] / scaled_source_wp[1]) + 1.f - d)));
+	rgbc.push_back(luminance * (powf(fabsf(rgb_comp[2]), p) * (d * (scaled_dest_wp[2] / powf(scaled_source_wp[2], p)) + 1.f - d)));
 
 	if (rgb_comp[2] < 0.f) rgbc[2] *= -1.f;
 
-- 
2.43.0


From c473d5cff2da38b181d11ce0e4f0e8b67a636003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:09 +0000
Subject: [PATCH 32/41] fix: the sum of 8 bit colors keeps the opacity

---
 ColorMagic/spaces/color_base.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ColorMagic/spaces/color_base.h b/ColorMagic/spaces/color_base.h
index 0d6ea9a..9058d85 100644
--- a/ColorMagic/spaces/color_base.h
+++ b/ColorMagic/spaces/color_base.h
@@ -172,7 +172,7 @@ namespace color_space
 		*/
 		color_base operator+(const color_base& rhs)
 		{
-			color_base result(this->alpha(), this->get_rgb_color_space(), this->m_component_vector.size(), this->get_component_max(), this->get_component_min());
+			color_base result(this->m_alpha, this->get_rgb_color_space(), this->m_component_vector.size(), this->get_component_max(), this->get_component_min());
 			if (this->get_color_type() == rhs.get_color_type() && this->m_component_vector.size() == rhs.m_component_vector.size())
 			{
 				result.m_type = this->m_type;
-- 
2.43.0


From bb7eed4bae9912880eb5475ba14454cf2cf52498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:14 +0000
Subject: [PATCH 33/41] fix: hash signs inside of hex codes are rejected

---
 ColorMagic/spaces/rgb_truecolor.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ColorMagic/spaces/rgb_truecolor.cpp b/ColorMagic/spaces/rgb_truecolor.cpp
index b35c6e2..556cf20 100644
--- a/ColorMagic/spaces/rgb_truecolor.cpp
+++ b/ColorMagic/spaces/rgb_truecolor.cpp
@@ -21,7 +21,7 @@ color_space::rgb_truecolor::rgb_truecolor(float r, float g, float b, float alpha
 
 color_space::rgb_truecolor::rgb_truecolor(std::string hex_code, rgb_color_space_definition* color_space) : color_base(0, color_space, 3, 255.f, 0.f)
 {
-	std::regex regex("^[#0-9A-Fa-f]+$");
+	std::regex regex("^#?[0-9A-Fa-f]+$");
 
 	if (!std::regex_match(hex_code, regex))
 	{
-- 
2.43.0


From 0471d9cdef7c8a628e1d97a98b238e54b5b462c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:47:40 +0000
Subject: [PATCH 34/41] fix: dissolve compares the opacity of both colors on
 one scale

---
 ColorMagic/manipulation/color_blend.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ColorMagic/manipulation/color_blend.cpp b/ColorMagic/manipulation/color_blend.cpp
index 0db19bb..62bd808 100644
--- a/ColorMagic/manipulation/color_blend.cpp
+++ b/ColorMagic/manipulation/color_blend.cpp
@@ -26,7 +26,7 @@ color_space::color_base * color_manipulation::color_blend::dissolve(color_space:
 	if (destination == nullptr) throw new std::invalid_argument("destination color is null.");
 	if (source->get_rgb_color_space() != destination->get_rgb_color_space()) throw new std::invalid_argument("The rgb color space definitions of both colors do not match.");
 
-	float source_dest_alpha_diff = source->alpha() - destination->alpha();
+	float source_dest_alpha_diff = color_converter::to_rgb_deep(source)->alpha() - color_converter::to_rgb_deep(destination)->alpha(); // 8 bit colors have an alpha of up to 255
 	return color_converter::convertTo(
 		(new color_blend())->general_porter_duff(
 			color_converter::to_rgb_deep(source),
-- 
2.43.0


From 2714a1c06a6b450f39e161401ffbd8ffd567d431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:47:40 +0000
Subject: [PATCH 35/41] fix: sums and differences of matrices with different
 dimensions are rejected

---
 ColorMagic/utils/matrix.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ColorMagic/utils/matrix.h b/ColorMagic/utils/matrix.h
index b4355ce..9bd328c 100644
--- a/ColorMagic/utils/matrix.h
+++ b/ColorMagic/utils/matrix.h
@@ -166,6 +166,8 @@ public:
 	//! Add two matrices
 	matrix<T> operator+(const matrix<T>& other)
 	{
+		if (m_rows != other.rows() || m_columns != other.columns()) throw std::invalid_argument("Matrix: The dimensions of the matrices do not match.");
+
 		matrix result(m_rows, m_columns);
 
 		for (int i = 0; i < m_rows; i++)
@@ -190,6 +192,8 @@ public:
 	//! Subtract two matrices
 	matrix<T> operator-(const matrix<T>& other)
 	{
+		if (m_rows != other.rows() || m_columns != other.columns()) throw std::invalid_argument("Matrix: The dimensions of the matrices do not match.");
+
 		matrix result(m_rows, m_columns);
 
 		for (int i = 0; i < m_rows; i++)
-- 
2.43.0


From a7fdd973674766176e917e1379dd7c2d86a7a10a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:47:40 +0000
Subject: [PATCH 36/41] fix: tests for negative rows and columns of a matrix do
 not read outside of it

---
 ColorMagic/utils/matrix.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ColorMagic/utils/matrix.h b/ColorMagic/utils/matrix.h
index 9bd328c..18d3a31 100644
--- a/ColorMagic/utils/matrix.h
+++ b/ColorMagic/utils/matrix.h
@@ -567,7 +567,7 @@ public:
 	//! Check if all values in the given row are 0.
 	bool is_row_null(int row_index)
 	{
-		if (row_index >= m_rows) return false;
+		if (row_index < 0 || row_index >= m_rows) return false;
 
 		for (int i = 0; i < m_columns; ++i)
 		{
@@ -579,7 +579,7 @@ public:
 	//! Check if all values in the given column are 0.
 	bool is_column_null(int col_index)
 	{
-		if (col_index >= m_columns) return false;
+		if (col_index < 0 || col_index >= m_columns) return false;
 
 		for (int i = 0; i < m_rows; ++i)
 		{
@@ -591,7 +591,7 @@ public:
 	//! Check if all values of both rows are equal.
 	bool are_rows_equal(int row1, int row2)
 	{
-		if (row1 >= m_rows || row2 >= m_rows) return false;
+		if (row1 < 0 || row2 < 0 || row1 >= m_rows || row2 >= m_rows) return false;
 
 		for (int i = 0; i < m_columns; ++i)
 		{
@@ -603,7 +603,7 @@ public:
 	//! Check if all values of both columns are equal.
 	bool are_columns_equal(int col1, int col2)
 	{
-		if (col1 >= m_columns || col2 >= m_columns) return false;
+		if (col1 < 0 || col2 < 0 || col1 >= m_columns || col2 >= m_columns) return false;
 
 		for (int i = 0; i < m_rows; ++i)
 		{
-- 
2.43.0


From 20419c45d41c71b6c861828036f670f4589c17dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:34:48 +0000
Subject: [PATCH 37/41] fix: soft light of light sources follows its formula

---
 ColorMagic/manipulation/color_blend.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ColorMagic/manipulation/color_blend.h b/ColorMagic/manipulation/color_blend.h
index 2a12731..addd870 100644
--- a/ColorMagic/manipulation/color_blend.h
+++ b/ColorMagic/manipulation/color_blend.h
@@ -719,7 +719,7 @@ namespace color_manipulation
 		static float soft_light_func(float s, float d)
 		{
 			if (s <= 0.5f) return d * (s + 0.5f);
-			else return 1.f - (1.f - d) * (1.f * (s - 0.5f));
+			else return 1.f - (1.f - d) * (1.f - (s - 0.5f));
 		}
 
 		static float vivid_light_func(float s, float d)
-- 
2.43.0


From 9c341030de4a0f4ec2f601452fd51e6e0dd77b94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:07:54 +0000
Subject: [PATCH 38/41] fix: assignment copies opacity and working space

---
 ColorMagic/spaces/cieluv.cpp         | 2 ++
 ColorMagic/spaces/cmyk.cpp           | 2 ++
 ColorMagic/spaces/grey_deepcolor.cpp | 2 ++
 ColorMagic/spaces/grey_truecolor.cpp | 2 ++
 ColorMagic/spaces/hcy.cpp            | 2 ++
 ColorMagic/spaces/hsi.cpp            | 2 ++
 ColorMagic/spaces/hsl.cpp            | 2 ++
 ColorMagic/spaces/hsv.cpp            | 2 ++
 ColorMagic/spaces/lab.cpp            | 2 ++
 ColorMagic/spaces/lch_ab.cpp         | 2 ++
 ColorMagic/spaces/lch_uv.cpp         | 2 ++
 ColorMagic/spaces/rgb_deepcolor.cpp  | 2 ++
 ColorMagic/spaces/rgb_truecolor.cpp  | 2 ++
 ColorMagic/spaces/xyy.cpp            | 2 ++
 ColorMagic/spaces/xyz.cpp            | 2 ++
 15 files changed, 30 insertions(+)

diff --git a/ColorMagic/spaces/cieluv.cpp b/ColorMagic/spaces/cieluv.cpp
index b1af8fb..a09c04f 100644
--- a/ColorMagic/spaces/cieluv.cpp
+++ b/ColorMagic/spaces/cieluv.cpp
@@ -37,6 +37,8 @@ color_space::cieluv & color_space::cieluv::operator=(const cieluv & other)
 		this->m_component_vector = other.get_component_vector();
 		this->m_max = other.get_component_max();
 		this->m_min = other.get_component_min();
+		this->m_alpha = other.m_alpha;
+		this->m_rgb_color_space = other.get_rgb_color_space();
 	}
 	return *this;
 }
diff --git a/ColorMagic/spaces/cmyk.cpp b/ColorMagic/spaces/cmyk.cpp
index cde475b..4fd936f 100644
--- a/ColorMagic/spaces/cmyk.cpp
+++ b/ColorMagic/spaces/cmyk.cpp
@@ -38,6 +38,8 @@ color_space::cmyk & color_space::cmyk::operator=(const cmyk & other)
 		this->m_component_vector = other.get_component_vector();
 		this->m_max = other.get_component_max();
 		this->m_min = other.get_component_min();
+		this->m_alpha = other.m_alpha;
+		this->m_rgb_color_space = other.get_rgb_color_space();
 	}
 	return *this;
 }
diff --git a/ColorMagic/spaces/grey_deepcolor.cpp b/ColorMagic/spaces/grey_deepcolor.cpp
index ca35a4c..ce93e87 100644
--- a/ColorMagic/spaces/grey_deepcolor.cpp
+++ b/ColorMagic/spaces/grey_deepcolor.cpp
@@ -35,6 +35,8 @@ color_space::grey_deepcolor & color_space::grey_deepcolor::operator=(const color
 		this->m_component_vector = other.get_component_vector();
 		this->m_max = other.get_component_max();
 		this->m_min = other.get_component_min();
+		this->m_alpha = other.m_alpha;
+		this->m_rgb_color_space = other.get_rgb_color_space();
 	}
 	return *this;
 }
diff --git a/ColorMagic/spaces/grey_truecolor.cpp b/ColorMagic/spaces/grey_truecolor.cpp
index 589fb87..af596f7 100644
--- a/ColorMagic/spaces/grey_truecolor.cpp
+++ b/ColorMagic/spaces/grey_truecolor.cpp
@@ -37,6 +37,8 @@ color_space::grey_truecolor & color_space::grey_truecolor::operator=(const color
 		this->m_component_vector = other.get_component_vector();
 		this->m_max = other.get_component_max();
 		this->m_min = other.get_component_min();
+		this->m_alpha = other.m_alpha;
+		this->m_rgb_color_space = other.get_rgb_color_space();
 	}
 	return *this;
 }
diff --git a/ColorMagic/spaces/hcy.cpp b/ColorMagic/spaces/hcy.cpp
index 8c43534..22a798e 100644
--- a/ColorMagic/spaces/hcy.cpp
+++ b/ColorMagic/spaces/hcy.cpp
@@ -37,6 +37,8 @@ color_space::hcy & color_space::hcy::operator=(const color_space::hcy & other)
 		this->m_component_vector = other.get_component_vector();
 		this->m_max = other.get_component_max();
 		this->m_min = other.get_component_min();
+		this->m_alpha = other.m_alpha;
+		this->m_rgb_color_space = other.get_rgb_color_space();
 	}
 	return *this;
 }
diff --git a/ColorMagic/spaces/hsi.cpp b/ColorMagic/spaces/hsi.cpp
index ac6edf1..71f840f 100644
--- a/ColorMagic/spaces/hsi.cpp
+++ b/ColorMagic/spaces/hsi.cpp
@@ -37,6 +37,8 @@ color_space::hsi & color_space::hsi::operator=(const color_space::hsi & other)
 		this->m_component_vector = other.get_component_vector();
 		this->m_max = other.get_component_max();
 		this->m_min = other.get_component_min();
+		this->m_alpha = other.m_alpha;
+		this->m_rgb_color_space = other.get_rgb_color_space();
 	}
 	return *this;
 }
diff --git a/ColorMagic/spaces/hsl.cpp b/ColorMagic/spaces/hsl.cpp
index 2e5aa7b..4892c98 100644
--- a/ColorMagic/spaces/hsl.cpp
+++ b/ColorMagic/spaces/hsl.cpp
@@ -37,6 +37,8 @@ color_space::hsl & color_space::hsl::operator=(const color_space::hsl & other)
 		this->m_component_vector = other.get_component_vector();
 		this->m_max = other.get_component_max();
 		this->m_min = other.get_component_min();
+		this->m_alpha = other.m_alpha;
+		this->m_rgb_color_space = other.get_rgb_color_space();
 	}
 	return *this;
 }
diff --git a/ColorMagic/spaces/hsv.cpp b/ColorMagic/spaces/hsv.cpp
index b97c704..5f7968a 100644
--- a/ColorMagic/spaces/hsv.cpp
+++ b/ColorMagic/spaces/hsv.cpp
@@ -37,6 +37,8 @@ color_space::hsv & color_space::hsv::operator=(const color_space::hsv & other)
 		this->m_component_vector = other.get_component_vector();
 		this->m_max = other.get_component_max();
 		this->m_min = other.get_component_min();
+		this->m_alpha = other.m_alpha;
+		this->m_rgb_color_space = other.get_rgb_color_space();
 	}
 	return *this;
 }
diff --git a/ColorMagic/spaces/lab.cpp b/ColorMagic/spaces/lab.cpp
index 3d24dfe..c0f1934 100644
--- a/ColorMagic/spaces/lab.cpp
+++ b/ColorMagic/spaces/lab.cpp
@@ -37,6 +37,8 @@ color_space::lab & color_space::lab::operator=(const color_space::lab & other)
 		this->m_component_vector = other.get_component_vector();
 		this->m_max = other.get_component_max();
 		this->m_min = other.get_component_min();
+		this->m_alpha = other.m_alpha;
+		this->m_rgb_color_space = other.get_rgb_color_space();
 	}
 	return *this;
 }
diff --git a/ColorMagic/spaces/lch_ab.cpp b/ColorMagic/spaces/lch_ab.cpp
index 891688d..dd94c64 100644
--- a/ColorMagic/spaces/lch_ab.cpp
+++ b/ColorMagic/spaces/lch_ab.cpp
@@ -37,6 +37,8 @@ color_space::lch_ab& color_space::lch_ab::operator=(const lch_ab & other)
 		this->m_component_vector = other.get_component_vector();
 		this->m_max = other.get_component_max();
 		this->m_min = other.get_component_min();
+		this->m_alpha = other.m_alpha;
+		this->m_rgb_color_space = other.get_rgb_color_space();
 	}
 	return *this;
 }
diff --git a/ColorMagic/spaces/lch_uv.cpp b/ColorMagic/spaces/lch_uv.cpp
index 4c6bef9..8ea8ea6 100644
--- a/ColorMagic/spaces/lch_uv.cpp
+++ b/ColorMagic/spaces/lch_uv.cpp
@@ -37,6 +37,8 @@ color_space::lch_uv& color_space::lch_uv::operator=(const lch_uv & other)
 		this->m_component_vector = other.get_component_vector();
 		this->m_max = other.get_component_max();
 		this->m_min = other.get_component_min();
+		this->m_alpha = other.m_alpha;
+		this->m_rgb_color_space = other.get_rgb_color_space();
 	}
 	return *this;
 }
diff --git a/ColorMagic/spaces/rgb_deepcolor.cpp b/ColorMagic/spaces/rgb_deepcolor.cpp
index a23e8a8..38faa94 100644
--- a/ColorMagic/spaces/rgb_deepcolor.cpp
+++ b/ColorMagic/spaces/rgb_deepcolor.cpp
@@ -45,6 +45,8 @@ color_space::rgb_deepcolor & color_space::rgb_deepcolor::operator=(const color_s
 		this->m_component_vector = other.get_component_vector();
 		this->m_max = other.get_component_max();
 		this->m_min = other.get_component_min();
+		this->m_alpha = other.m_alpha;
+		this->m_rgb_color_space = other.get_rgb_color_space();
 	}
 	return *this;
 }
diff --git a/ColorMagic/spaces/rgb_truecolor.cpp b/ColorMagic/spaces/rgb_truecolor.cpp
index 556cf20..46b6702 100644
--- a/ColorMagic/spaces/rgb_truecolor.cpp
+++ b/ColorMagic/spaces/rgb_truecolor.cpp
@@ -97,6 +97,8 @@ color_space::rgb_truecolor & color_space::rgb_truecolor::operator=(const color_s
 		this->m_component_vector = other.get_component_vector();
 		this->m_max = other.get_component_max();
 		this->m_min = other.get_component_min();
+		this->m_alpha = other.m_alpha;
+		this->m_rgb_color_space = other.get_rgb_color_space();
 	}
 	return *this;
 }
diff --git a/ColorMagic/spaces/xyy.cpp b/ColorMagic/spaces/xyy.cpp
index 9c7ceb5..082a316 100644
--- a/ColorMagic/spaces/xyy.cpp
+++ b/ColorMagic/spaces/xyy.cpp
@@ -37,6 +37,8 @@ color_space::xyy & color_space::xyy::operator=(const color_space::xyy & other)
 		this->m_component_vector = other.get_component_vector();
 		this->m_max = other.get_component_max();
 		this->m_min = other.get_component_min();
+		this->m_alpha = other.m_alpha;
+		this->m_rgb_color_space = other.get_rgb_color_space();
 	}
 	return *this;
 }
diff --git a/ColorMagic/spaces/xyz.cpp b/ColorMagic/spaces/xyz.cpp
index 7cfc96d..9118a39 100644
--- a/ColorMagic/spaces/xyz.cpp
+++ b/ColorMagic/spaces/xyz.cpp
@@ -37,6 +37,8 @@ color_space::xyz & color_space::xyz::operator=(const color_space::xyz & other)
 		this->m_component_vector = other.get_component_vector();
 		this->m_max = other.get_component_max();
 		this->m_min = other.get_component_min();
+		this->m_alpha = other.m_alpha;
+		this->m_rgb_color_space = other.get_rgb_color_space();
 	}
 	return *this;
 }
-- 
2.43.0


From a484b3fc386e3086469be44bac4ac81328e91811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:07:54 +0000
Subject: [PATCH 39/41] fix: conversion from CIELUV scales with the luminance
 of the white

---
 ColorMagic/manipulation/color_converter.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ColorMagic/manipulation/color_converter.cpp b/ColorMagic/manipulation/color_converter.cpp
index d1b542a..7d64275 100644
--- a/ColorMagic/manipulation/color_converter.cpp
+++ b/ColorMagic/manipulation/color_converter.cpp
@@ -1098,6 +1098,7 @@ color_space::xyz* color_manipulation::color_converter::cieluv_to_xyz(color_space
 			3.f* color->get_rgb_color_space()->get_white_point()->get_tristimulus_z());
 
 	auto Y = color->L() > 903.3f* 0.008856f ? powf((color->L() + 16.f) / 116.f, 3.f) : color->L() / 903.3f;
+	Y *= color->get_rgb_color_space()->get_white_point()->get_tristimulus_y();
 	auto a = 1.f / 3.f* ((52.f* color->L() / (color->u() + 13.f* color->L()* u_temp)) - 1.f);
 	auto b = -5.f* Y;
 	auto c = -1.f / 3.f;
-- 
2.43.0


From 8be5ae60049b33f4d9e578c6ab30309f4b6808bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:40:59 +0000
Subject: [PATCH 40/41] fix: 8 bit colours made of sums keep their opacity

---
 ColorMagic/spaces/grey_truecolor.cpp | 2 +-
 ColorMagic/spaces/rgb_truecolor.cpp  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/ColorMagic/spaces/grey_truecolor.cpp b/ColorMagic/spaces/grey_truecolor.cpp
index af596f7..6ac94e9 100644
--- a/ColorMagic/spaces/grey_truecolor.cpp
+++ b/ColorMagic/spaces/grey_truecolor.cpp
@@ -21,7 +21,7 @@ color_space::grey_truecolor::grey_truecolor(const color_base & other) : color_ba
 	{
 		this->m_type = color_type::GREY_TRUE;
 		this->m_component_vector = other.get_component_vector();
-		this->alpha(other.alpha());
+		this->m_alpha = other.color_base::alpha(); // plain color_base objects, e.g. sums, have an alpha of up to 1
 	}
 	else
 	{
diff --git a/ColorMagic/spaces/rgb_truecolor.cpp b/ColorMagic/spaces/rgb_truecolor.cpp
index 46b6702..46faef1 100644
--- a/ColorMagic/spaces/rgb_truecolor.cpp
+++ b/ColorMagic/spaces/rgb_truecolor.cpp
@@ -81,7 +81,7 @@ color_space::rgb_truecolor::rgb_truecolor(const color_base & other) : color_base
 	{
 		this->m_type = color_type::RGB_TRUE;
 		this->m_component_vector = other.get_component_vector();
-		this->alpha(other.alpha());
+		this->m_alpha = other.color_base::alpha(); // plain color_base objects, e.g. sums, have an alpha of up to 1
 	}
 	else
 	{
-- 
2.43.0


From 7efe1a0ffd07d50104444733c4b75cc9a5d4612c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:40:59 +0000
Subject: [PATCH 41/41] fix: removing a part of a gamma curve returns

---
 ColorMagic/spaces/gamma.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ColorMagic/spaces/gamma.h b/ColorMagic/spaces/gamma.h
index 0cadfc8..8812a0f 100644
--- a/ColorMagic/spaces/gamma.h
+++ b/ColorMagic/spaces/gamma.h
@@ -286,6 +286,7 @@ namespace color_space
 		bool remove_gamma_curve_part(std::vector<gamma_part*>::iterator position)
 		{
 			m_gamma_curve_parts.erase(position);
+			return true;
 		}
 
 		//! Replace the list of default gamma parts.
@@ -309,6 +310,7 @@ namespace color_space
 		bool remove_inverse_gamma_curve_part(std::vector<gamma_part*>::iterator position)
 		{
 			m_inverse_gamma_curve_parts.erase(position);
+			return true;
 		}
 
 		//! Replace the list of inverse gamma parts.
-- 
2.43.0

