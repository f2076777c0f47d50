From 99234cc1a4a6b9d7916ef7c945071dc94075b993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:39 +0000
Subject: [PATCH 01/52] fix: mip generation of a face no longer starts from
 another face's restored image

---
 lib/src/Texture.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/Texture.cpp b/lib/src/Texture.cpp
index 6195af9..f157120 100644
--- a/lib/src/Texture.cpp
+++ b/lib/src/Texture.cpp
@@ -1455,11 +1455,11 @@ bool Texture::generateMipmaps(Image::ResizeFilter filter, unsigned int mipLevels
 		}
 
 		// Then process mip by mip to make it easier to manage custom replacements.
-		Image prevImage;
 		for (unsigned int d = 0; d < depth; ++d)
 		{
 			for (unsigned int f = 0; f < m_impl->faces; ++f)
 			{
+				Image prevImage;
 				for (unsigned int mip = 1; mip < mipLevels; ++mip)
 				{
 					unsigned int mipWidth = width(mip);
-- 
2.43.0


From 95117322e165935cf02b5c8ed11acc27ed430ce9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:39 +0000
Subject: [PATCH 02/52] fix: 3D textures with manual mip levels only hold the
 depth of each level

---
 lib/src/Texture.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib/src/Texture.cpp b/lib/src/Texture.cpp
index f157120..eef0746 100644
--- a/lib/src/Texture.cpp
+++ b/lib/src/Texture.cpp
@@ -1152,9 +1152,10 @@ bool Texture::initialize(Dimension dimension, unsigned int width, unsigned int h
 	m_impl->faces = dimension == Dimension::Cube ? 6 : 1;
 
 	m_impl->images.resize(m_impl->mipLevels);
-	for (DepthImageList& depthImages : m_impl->images)
+	for (unsigned int mip = 0; mip < m_impl->mipLevels; ++mip)
 	{
-		depthImages.resize(std::max(m_impl->depth, 1U));
+		DepthImageList& depthImages = m_impl->images[mip];
+		depthImages.resize(Texture::depth(mip));
 		for (FaceImageList& faceImages : depthImages)
 			faceImages.resize(m_impl->faces);
 	}
-- 
2.43.0


From d328818fa9aa2dd4f5fbdb74144bca9dae07103f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:39 +0000
Subject: [PATCH 03/52] fix: assigning a custom mip image also assigns its
 replacement

---
 lib/src/Texture.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/src/Texture.cpp b/lib/src/Texture.cpp
index eef0746..d39f5ca 100644
--- a/lib/src/Texture.cpp
+++ b/lib/src/Texture.cpp
@@ -294,6 +294,7 @@ Texture::CustomMipImage& Texture::CustomMipImage::operator=(const CustomMipImage
 		image = other.image;
 		imageStorage = Image();
 	}
+	replacement = other.replacement;
 	return *this;
 }
 
@@ -312,6 +313,7 @@ Texture::CustomMipImage& Texture::CustomMipImage::operator=(CustomMipImage&& oth
 		image = other.image;
 		imageStorage = Image();
 	}
+	replacement = other.replacement;
 	return *this;
 }
 
-- 
2.43.0


From 34ec5188733609f86ccae5405ad9ad40f3df5481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:39 +0000
Subject: [PATCH 04/52] fix: custom mip images are converted to the texture's
 color space

---
 lib/src/Texture.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/src/Texture.cpp b/lib/src/Texture.cpp
index d39f5ca..6494586 100644
--- a/lib/src/Texture.cpp
+++ b/lib/src/Texture.cpp
@@ -1429,6 +1429,7 @@ bool Texture::generateMipmaps(Image::ResizeFilter filter, unsigned int mipLevels
 						mipWidth, mipHeight, filter);
 					if (thisMipImage.format() != Image::Format::RGBAF)
 						thisMipImage = thisMipImage.convert(Image::Format::RGBAF);
+					thisMipImage.changeColorSpace(m_impl->colorSpace);
 				}
 			}
 
@@ -1505,6 +1506,7 @@ bool Texture::generateMipmaps(Image::ResizeFilter filter, unsigned int mipLevels
 							mipWidth, mipHeight, filter);
 						if (thisMipImage.format() != Image::Format::RGBAF)
 							thisMipImage = thisMipImage.convert(Image::Format::RGBAF);
+						thisMipImage.changeColorSpace(m_impl->colorSpace);
 					}
 					else
 						thisMipImage = std::move(curMip);
-- 
2.43.0


From ad004bce6360282c2a948e8f00fac21483fa71a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:16 +0000
Subject: [PATCH 05/52] fix: custom mip images of formats that only support
 some resize filters are used

---
 lib/src/Texture.cpp | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/lib/src/Texture.cpp b/lib/src/Texture.cpp
index 6494586..b6d1991 100644
--- a/lib/src/Texture.cpp
+++ b/lib/src/Texture.cpp
@@ -1425,10 +1425,8 @@ bool Texture::generateMipmaps(Image::ResizeFilter filter, unsigned int mipLevels
 					auto foundCustomMip = customMipImages.find(ImageIndex(mip, d));
 					assert(foundCustomMip != customMipImages.end());
 					Image& thisMipImage = mipImages[d];
-					thisMipImage = foundCustomMip->second.image->resize(
-						mipWidth, mipHeight, filter);
-					if (thisMipImage.format() != Image::Format::RGBAF)
-						thisMipImage = thisMipImage.convert(Image::Format::RGBAF);
+					thisMipImage = foundCustomMip->second.image->convert(
+						Image::Format::RGBAF).resize(mipWidth, mipHeight, filter);
 					thisMipImage.changeColorSpace(m_impl->colorSpace);
 				}
 			}
@@ -1502,10 +1500,8 @@ bool Texture::generateMipmaps(Image::ResizeFilter filter, unsigned int mipLevels
 					Image& thisMipImage = m_impl->images[mip][d][f];
 					if (customMip)
 					{
-						thisMipImage = foundCustomMip->second.image->resize(
-							mipWidth, mipHeight, filter);
-						if (thisMipImage.format() != Image::Format::RGBAF)
-							thisMipImage = thisMipImage.convert(Image::Format::RGBAF);
+						thisMipImage = foundCustomMip->second.image->convert(
+							Image::Format::RGBAF).resize(mipWidth, mipHeight, filter);
 						thisMipImage.changeColorSpace(m_impl->colorSpace);
 					}
 					else
-- 
2.43.0


From a2cc7629f3ff26988e43d3de2ab461c784af1d5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:16 +0000
Subject: [PATCH 06/52] fix: inconsistent custom mip images leave a 3D texture
 unchanged

---
 lib/src/Texture.cpp | 52 ++++++++++++++++++++++++++++-----------------
 1 file changed, 32 insertions(+), 20 deletions(-)

diff --git a/lib/src/Texture.cpp b/lib/src/Texture.cpp
index b6d1991..58aca4d 100644
--- a/lib/src/Texture.cpp
+++ b/lib/src/Texture.cpp
@@ -1343,6 +1343,33 @@ bool Texture::generateMipmaps(Image::ResizeFilter filter, unsigned int mipLevels
 
 	mipLevels = std::min(std::max(mipLevels, 1U),
 		maxMipmapLevels(dimension(), width(), height(), depth()));
+
+	if (m_impl->dimension == Dimension::Dim3D)
+	{
+		// Check for custom mips. If one depth is provided, all must be, and have consistent
+		// replacement between them.
+		for (unsigned int mip = 1; mip < mipLevels; ++mip)
+		{
+			auto firstCustomMip = customMipImages.find(ImageIndex(mip, 0));
+			unsigned int mipDepth = std::max(m_impl->depth >> mip, 1U);
+			for (unsigned int d = 1; d < mipDepth; ++d)
+			{
+				auto foundCustomMip = customMipImages.find(ImageIndex(mip, d));
+				if ((foundCustomMip == customMipImages.end()) !=
+					(firstCustomMip == customMipImages.end()))
+				{
+					return false;
+				}
+
+				if (foundCustomMip != customMipImages.end() &&
+					foundCustomMip->second.replacement != firstCustomMip->second.replacement)
+				{
+					return false;
+				}
+			}
+		}
+	}
+
 	m_impl->mipLevels = mipLevels;
 	m_impl->images.resize(mipLevels);
 
@@ -1357,26 +1384,11 @@ bool Texture::generateMipmaps(Image::ResizeFilter filter, unsigned int mipLevels
 			unsigned int mipHeight = height(mip);
 			unsigned int mipDepth = depth(mip);
 
-			// Check for custom mips. If one depth is provided, all must be, and have consistent
-			// replacement between them.
-			bool customMips = false;
-			MipReplacement replacement = MipReplacement::Once;
-			for (unsigned int d = 0; d < mipDepth; ++d)
-			{
-				auto foundCustomMip = customMipImages.find(ImageIndex(mip, d));
-				if (foundCustomMip == customMipImages.end())
-				{
-					if (customMips)
-						return false;
-				}
-				else if (d == 0)
-				{
-					customMips = true;
-					replacement = foundCustomMip->second.replacement;
-				}
-				else if (!customMips || replacement != foundCustomMip->second.replacement)
-					return false;
-			}
+			// Custom mips have already been verified to be consistent across the depth.
+			auto firstCustomMip = customMipImages.find(ImageIndex(mip, 0));
+			bool customMips = firstCustomMip != customMipImages.end();
+			MipReplacement replacement = customMips ? firstCustomMip->second.replacement :
+				MipReplacement::Once;
 
 			// Generated mips, either when no replacement is used or to resume previous state when
 			// replacement is set to once.
-- 
2.43.0


From 00b8c068f851589892f15f47b6cc649a3568957f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:16 +0000
Subject: [PATCH 07/52] fix: generating mipmaps for a converted texture drops
 the data for the old levels

---
 lib/src/Texture.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/lib/src/Texture.cpp b/lib/src/Texture.cpp
index 58aca4d..266e704 100644
--- a/lib/src/Texture.cpp
+++ b/lib/src/Texture.cpp
@@ -1370,6 +1370,13 @@ bool Texture::generateMipmaps(Image::ResizeFilter filter, unsigned int mipLevels
 		}
 	}
 
+	// Any previously converted data doesn't correspond to the new images and mip levels.
+	if (converted())
+	{
+		m_impl->format = Format::Unknown;
+		m_impl->textures.clear();
+	}
+
 	m_impl->mipLevels = mipLevels;
 	m_impl->images.resize(mipLevels);
 
-- 
2.43.0


From da63761fa2de3fae27c6df617047e31298eb27fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:22 +0000
Subject: [PATCH 08/52] fix: B10G11R11_UFloat saturates and encodes denormals
 instead of corrupting out of range values

---
 lib/src/StandardConverter.cpp | 27 ++++++++++++++++++++++++++-
 1 file changed, 26 insertions(+), 1 deletion(-)

diff --git a/lib/src/StandardConverter.cpp b/lib/src/StandardConverter.cpp
index d521474..5814cd3 100644
--- a/lib/src/StandardConverter.cpp
+++ b/lib/src/StandardConverter.cpp
@@ -19,6 +19,30 @@
 namespace cuttlefish
 {
 
+// Packs an unsigned float with 5 bits of exponent. Negative values become 0, while finite values
+// that are too large become the maximum finite value.
+static std::uint32_t packUFloat(float value, int mantissaBits)
+{
+	const int maxExponent = 15;
+	const int minExponent = -14;
+	if (std::isnan(value))
+		return (1U << (mantissaBits + 5)) - 1;
+	else if (value <= 0.0f)
+		return 0;
+	else if (value > std::numeric_limits<float>::max())
+		return 0x1FU << mantissaBits;
+
+	value = std::min(value, std::ldexp(2.0f, maxExponent) - std::ldexp(1.0f,
+		maxExponent - mantissaBits));
+	int exponent;
+	std::frexp(value, &exponent);
+	exponent = std::max(exponent - 1, minExponent);
+	// The implicit top bit of the mantissa increments the exponent for normalized values.
+	auto mantissa = static_cast<std::uint32_t>(
+		std::round(std::ldexp(value, mantissaBits - exponent)));
+	return (static_cast<std::uint32_t>(exponent - minExponent) << mantissaBits) + mantissa;
+}
+
 void R4G4Converter::process(unsigned int x, unsigned int, ThreadData*)
 {
 	std::uint8_t* curData = reinterpret_cast<std::uint8_t*>(data().data()) + x*batchSize;
@@ -439,7 +463,8 @@ void B10R11R11UFloatConverter::process(unsigned int x, unsigned int, ThreadData*
 		}
 
 		unsigned int col = (x*batchSize + i) % image().width();
-		curData[i] = glm::packF2x11_1x10(*reinterpret_cast<const glm::vec3*>(scanline + col));
+		curData[i] = packUFloat(scanline[col].r, 6) | (packUFloat(scanline[col].g, 6) << 11) |
+			(packUFloat(scanline[col].b, 5) << 22);
 	}
 }
 
-- 
2.43.0


From 06f9747b73a1df6ec36dc466442a1abd9272e948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:22 +0000
Subject: [PATCH 09/52] fix: E5B9G9R9_UFloat uses the full range of its shared
 exponent

---
 lib/src/StandardConverter.cpp | 32 +++++++++++++++++++++++++++++++-
 1 file changed, 31 insertions(+), 1 deletion(-)

diff --git a/lib/src/StandardConverter.cpp b/lib/src/StandardConverter.cpp
index 5814cd3..9142490 100644
--- a/lib/src/StandardConverter.cpp
+++ b/lib/src/StandardConverter.cpp
@@ -43,6 +43,36 @@ static std::uint32_t packUFloat(float value, int mantissaBits)
 	return (static_cast<std::uint32_t>(exponent - minExponent) << mantissaBits) + mantissa;
 }
 
+// Packs 9 bits of mantissa for each color channel with a shared 5 bits of exponent.
+static std::uint32_t packSharedExponent(const ColorRGBAf& color)
+{
+	const int mantissaBits = 9;
+	const int maxExponent = 16;
+	const int minExponent = -15;
+	const float maxValue = std::ldexp(1.0f, maxExponent) - std::ldexp(1.0f,
+		maxExponent - mantissaBits);
+	// Also guards against NaN.
+	float r = color.r > 0.0f ? std::min(color.r, maxValue) : 0.0f;
+	float g = color.g > 0.0f ? std::min(color.g, maxValue) : 0.0f;
+	float b = color.b > 0.0f ? std::min(color.b, maxValue) : 0.0f;
+
+	float maxColor = std::max(r, std::max(g, b));
+	if (maxColor == 0.0f)
+		return 0;
+
+	int exponent;
+	std::frexp(maxColor, &exponent);
+	exponent = std::max(exponent, minExponent);
+	if (std::round(std::ldexp(maxColor, mantissaBits - exponent)) >= std::ldexp(1.0f, mantissaBits))
+		++exponent;
+
+	auto rBits = static_cast<std::uint32_t>(std::round(std::ldexp(r, mantissaBits - exponent)));
+	auto gBits = static_cast<std::uint32_t>(std::round(std::ldexp(g, mantissaBits - exponent)));
+	auto bBits = static_cast<std::uint32_t>(std::round(std::ldexp(b, mantissaBits - exponent)));
+	return rBits | (gBits << 9) | (bBits << 18) |
+		(static_cast<std::uint32_t>(exponent - minExponent) << 27);
+}
+
 void R4G4Converter::process(unsigned int x, unsigned int, ThreadData*)
 {
 	std::uint8_t* curData = reinterpret_cast<std::uint8_t*>(data().data()) + x*batchSize;
@@ -485,7 +515,7 @@ void E5B9G9R9UFloatConverter::process(unsigned int x, unsigned int, ThreadData*)
 		}
 
 		unsigned int col = (x*batchSize + i) % image().width();
-		curData[i] = glm::packF3x9_E1x5(*reinterpret_cast<const glm::vec3*>(scanline + col));
+		curData[i] = packSharedExponent(scanline[col]);
 	}
 }
 
-- 
2.43.0


From d0dc47694c2d9de5f26f3cb6faea4b60c8f49bf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:22 +0000
Subject: [PATCH 10/52] fix: 32-bit integer formats saturate at the limits of
 the integers

---
 lib/src/StandardConverter.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/lib/src/StandardConverter.h b/lib/src/StandardConverter.h
index d3616ca..f04b2a0 100644
--- a/lib/src/StandardConverter.h
+++ b/lib/src/StandardConverter.h
@@ -163,8 +163,9 @@ public:
 
 	void process(unsigned int x, unsigned int, ThreadData*) override
 	{
-		const float minVal = static_cast<float>(std::numeric_limits<T>::min());
-		const float maxVal = static_cast<float>(std::numeric_limits<T>::max());
+		// Floats can't represent the limits of 32-bit integers.
+		const double minVal = static_cast<double>(std::numeric_limits<T>::min());
+		const double maxVal = static_cast<double>(std::numeric_limits<T>::max());
 
 		T* curData = reinterpret_cast<T*>(data().data()) + x*batchSize*C;
 		unsigned int row = x*batchSize/image().width();
@@ -183,8 +184,9 @@ public:
 			unsigned int col = (x*batchSize + i) % image().width();
 			for (unsigned int c = 0; c < C; ++c)
 			{
+				double value = scanline[col*4 + c];
 				curData[i*C + c] = static_cast<T>(
-					std::round(clamp(scanline[col*4 + c], minVal, maxVal)));
+					std::round(std::min(std::max(value, minVal), maxVal)));
 			}
 		}
 	}
-- 
2.43.0


From fe87de28519db68b5eef95566f4d56b7df153dd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:22 +0000
Subject: [PATCH 11/52] fix: Image::blueMask() returns the mask for the blue
 channel

---
 lib/src/Image.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/Image.cpp b/lib/src/Image.cpp
index 0378669..753f89f 100644
--- a/lib/src/Image.cpp
+++ b/lib/src/Image.cpp
@@ -743,7 +743,7 @@ struct Image::Impl
 		: image(img), format(format), colorSpace(colorSpace), bitsPerPixel(FreeImage_GetBPP(img)),
 		width(FreeImage_GetWidth(img)), height(FreeImage_GetHeight(img)),
 		redMask(FreeImage_GetRedMask(img)), greenMask(FreeImage_GetGreenMask(img)),
-		blueMask(FreeImage_GetGreenMask(img)),
+		blueMask(FreeImage_GetBlueMask(img)),
 		alphaMask(format == Format::RGBA8 ? FI_RGBA_ALPHA_MASK : 0), redShift(0),
 		greenShift(0), blueShift(0), alphaShift(0)
 	{
-- 
2.43.0


From 74e3bb61a01e84fcca7fbbbc2661609a8294c753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:22 +0000
Subject: [PATCH 12/52] fix: Image::setPixel() keeps the grayscale value
 computed in linear space for sRGB images

---
 lib/src/Image.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/Image.cpp b/lib/src/Image.cpp
index 753f89f..f24904d 100644
--- a/lib/src/Image.cpp
+++ b/lib/src/Image.cpp
@@ -1120,7 +1120,7 @@ bool Image::setPixel(unsigned int x, unsigned int y, const ColorRGBAd& color, bo
 			grayColor.r = grayColor.g = grayColor.b = linearToSRGB(toGrayscale(
 				sRGBToLinear(color.r), sRGBToLinear(color.g), sRGBToLinear(color.b)));
 			grayColor.a = color.a;
-			setPixelNoGrayscaleImpl(m_impl->format, scanline, x, grayColor);
+			return setPixelNoGrayscaleImpl(m_impl->format, scanline, x, grayColor);
 		}
 		return setPixelImpl(m_impl->format, scanline, x, color);
 	}
-- 
2.43.0


From dd6b728214465340c2c48d28efdb4ed26a1cab34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:22 +0000
Subject: [PATCH 13/52] fix: setting a pixel of an integer image saturates to
 the range of the integer

---
 lib/src/Image.cpp | 29 +++++++++++------------------
 1 file changed, 11 insertions(+), 18 deletions(-)

diff --git a/lib/src/Image.cpp b/lib/src/Image.cpp
index f24904d..c46c3f8 100644
--- a/lib/src/Image.cpp
+++ b/lib/src/Image.cpp
@@ -316,9 +316,10 @@ double clamp(double d)
 }
 
 template <typename T>
-T clamp(T v)
+T fromDoubleInt(double d)
 {
-	return std::max(std::min(v, std::numeric_limits<T>::max()), std::numeric_limits<T>::lowest());
+	return static_cast<T>(std::max(std::min(d, static_cast<double>(std::numeric_limits<T>::max())),
+		static_cast<double>(std::numeric_limits<T>::lowest())));
 }
 
 template <typename T>
@@ -557,20 +558,16 @@ bool setPixelImpl(Image::Format format, void* scanline, unsigned int x, const Co
 			return true;
 		}
 		case Image::Format::Int16:
-			reinterpret_cast<std::int16_t*>(scanline)[x] = clamp(
-				static_cast<std::int16_t>(color.r));
+			reinterpret_cast<std::int16_t*>(scanline)[x] = fromDoubleInt<std::int16_t>(color.r);
 			return true;
 		case Image::Format::UInt16:
-			reinterpret_cast<std::uint16_t*>(scanline)[x] = clamp(
-				static_cast<std::int16_t>(color.r));
+			reinterpret_cast<std::uint16_t*>(scanline)[x] = fromDoubleInt<std::uint16_t>(color.r);
 			return true;
 		case Image::Format::Int32:
-			reinterpret_cast<std::int32_t*>(scanline)[x] = clamp(
-				static_cast<std::int32_t>(color.r));
+			reinterpret_cast<std::int32_t*>(scanline)[x] = fromDoubleInt<std::int32_t>(color.r);
 			return true;
 		case Image::Format::UInt32:
-			reinterpret_cast<std::uint32_t*>(scanline)[x] = clamp(
-				static_cast<std::uint32_t>(color.r));
+			reinterpret_cast<std::uint32_t*>(scanline)[x] = fromDoubleInt<std::uint32_t>(color.r);
 			return true;
 		case Image::Format::Float:
 			reinterpret_cast<float*>(scanline)[x] =
@@ -673,20 +670,16 @@ bool setPixelNoGrayscaleImpl(Image::Format format, void* scanline, unsigned int
 			return true;
 		}
 		case Image::Format::Int16:
-			reinterpret_cast<std::int16_t*>(scanline)[x] = clamp(
-				static_cast<std::int16_t>(color.r));
+			reinterpret_cast<std::int16_t*>(scanline)[x] = fromDoubleInt<std::int16_t>(color.r);
 			return true;
 		case Image::Format::UInt16:
-			reinterpret_cast<std::uint16_t*>(scanline)[x] = clamp(
-				static_cast<std::uint16_t>(color.r));
+			reinterpret_cast<std::uint16_t*>(scanline)[x] = fromDoubleInt<std::uint16_t>(color.r);
 			return true;
 		case Image::Format::Int32:
-			reinterpret_cast<std::int32_t*>(scanline)[x] = clamp(
-				static_cast<std::int32_t>(color.r));
+			reinterpret_cast<std::int32_t*>(scanline)[x] = fromDoubleInt<std::int32_t>(color.r);
 			return true;
 		case Image::Format::UInt32:
-			reinterpret_cast<std::uint32_t*>(scanline)[x] = clamp(
-				static_cast<std::uint32_t>(color.r));
+			reinterpret_cast<std::uint32_t*>(scanline)[x] = fromDoubleInt<std::uint32_t>(color.r);
 			return true;
 		case Image::Format::Float:
 			reinterpret_cast<float*>(scanline)[x] = static_cast<float>(color.r);
-- 
2.43.0


From f5d8ebce5a58de00549118cd3ed991c11dc78f1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:39 +0000
Subject: [PATCH 14/52] fix: converting an image from 8 to 16 bits per channel
 uses the full range

---
 lib/src/Image.cpp | 13 +++----------
 1 file changed, 3 insertions(+), 10 deletions(-)

diff --git a/lib/src/Image.cpp b/lib/src/Image.cpp
index c46c3f8..a452b80 100644
--- a/lib/src/Image.cpp
+++ b/lib/src/Image.cpp
@@ -1156,12 +1156,7 @@ Image Image::convert(Format dstFormat, bool convertGrayscale) const
 				}
 				break;
 			case Format::Gray16:
-				if (convertLinearGrayscale || isGrayscaleFormat(srcFormat))
-				{
-					image.m_impl.reset(Impl::create(
-						FreeImage_ConvertToType(m_impl->image, FIT_UINT16), m_impl->colorSpace,
-						dstFormat));
-				}
+				// NOTE: FreeImage doesn't use the full range when converting from 8 to 16 bits.
 				break;
 			case Format::RGB5:
 				image.m_impl.reset(Impl::create(
@@ -1176,8 +1171,7 @@ Image Image::convert(Format dstFormat, bool convertGrayscale) const
 					FreeImage_ConvertTo24Bits(m_impl->image), m_impl->colorSpace, dstFormat));
 				break;
 			case Format::RGB16:
-				image.m_impl.reset(Impl::create(
-					FreeImage_ConvertToRGB16(m_impl->image), m_impl->colorSpace, dstFormat));
+				// NOTE: FreeImage doesn't use the full range when converting from 8 to 16 bits.
 				break;
 			case Format::RGBF:
 				// NOTE: Don't use FreeImage conversion for float to float conversion to avoid
@@ -1194,8 +1188,7 @@ Image Image::convert(Format dstFormat, bool convertGrayscale) const
 					FreeImage_ConvertTo32Bits(m_impl->image), m_impl->colorSpace, dstFormat));
 				break;
 			case Format::RGBA16:
-				image.m_impl.reset(Impl::create(
-					FreeImage_ConvertToRGBA16(m_impl->image), m_impl->colorSpace, dstFormat));
+				// NOTE: FreeImage doesn't use the full range when converting from 8 to 16 bits.
 				break;
 			case Format::RGBAF:
 				// NOTE: Don't use FreeImage conversion for float to float conversion to avoid
-- 
2.43.0


From 09f29fd9478e237af78f2133ab8a8bb5ff523938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:39 +0000
Subject: [PATCH 15/52] fix: converting RGB5 and RGB565 images to RGBAF keeps
 the precise color

---
 lib/src/Image.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib/src/Image.cpp b/lib/src/Image.cpp
index a452b80..916f4b5 100644
--- a/lib/src/Image.cpp
+++ b/lib/src/Image.cpp
@@ -1192,8 +1192,9 @@ Image Image::convert(Format dstFormat, bool convertGrayscale) const
 				break;
 			case Format::RGBAF:
 				// NOTE: Don't use FreeImage conversion for float to float conversion to avoid
-				// clamping HDR images.
-				if (!needFloatConvertFallback(srcFormat))
+				// clamping HDR images. FreeImage conversion is also incorrect for 16-BPP RGB
+				// formats.
+				if (!needFloatConvertFallback(srcFormat) && !isRGB16BPPFormat(srcFormat))
 				{
 					image.m_impl.reset(Impl::create(
 						FreeImage_ConvertToRGBAF(m_impl->image), m_impl->colorSpace, dstFormat));
-- 
2.43.0


From 52b85b09c13aafa9866e1e65ee7457b36fd2b0c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:08 +0000
Subject: [PATCH 16/52] fix: converting Gray8 images to integer formats uses
 the color as for all other formats

---
 lib/src/Image.cpp | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/lib/src/Image.cpp b/lib/src/Image.cpp
index 916f4b5..08cb683 100644
--- a/lib/src/Image.cpp
+++ b/lib/src/Image.cpp
@@ -1200,21 +1200,13 @@ Image Image::convert(Format dstFormat, bool convertGrayscale) const
 						FreeImage_ConvertToRGBAF(m_impl->image), m_impl->colorSpace, dstFormat));
 				}
 				break;
-			case Format::Int16:
-				image.m_impl.reset(Impl::create(FreeImage_ConvertToType(m_impl->image, FIT_INT16),
-					m_impl->colorSpace, dstFormat));
-				break;
 			case Format::UInt16:
 				// NOTE: FreeImage treates UInt16 as a normalized integer type.
 				break;
+			case Format::Int16:
 			case Format::Int32:
-				image.m_impl.reset(Impl::create(
-					FreeImage_ConvertToType(m_impl->image, FIT_INT32), m_impl->colorSpace,
-					dstFormat));
-				break;
 			case Format::UInt32:
-				image.m_impl.reset(Impl::create( FreeImage_ConvertToType(m_impl->image, FIT_UINT32),
-					m_impl->colorSpace, dstFormat));
+				// NOTE: FreeImage copies the unscaled 8-bit values for Gray8.
 				break;
 			case Format::Float:
 				// NOTE: Don't use FreeImage conversion for float to float conversion to avoid
-- 
2.43.0


From 259d87400b3fd33577b9bb960830b9a1a46be887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:42 +0000
Subject: [PATCH 17/52] fix: loading 1-bit, 4-bit, and inverted grayscale
 images

---
 lib/src/Image.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/lib/src/Image.cpp b/lib/src/Image.cpp
index 08cb683..b3adb92 100644
--- a/lib/src/Image.cpp
+++ b/lib/src/Image.cpp
@@ -707,10 +707,16 @@ struct Image::Impl
 		if (!image)
 			return nullptr;
 
-		if (FreeImage_GetColorType(image) == FIC_PALETTE)
+		FREE_IMAGE_COLOR_TYPE colorType = FreeImage_GetColorType(image);
+		bool unsupportedGray = FreeImage_GetImageType(image) == FIT_BITMAP &&
+			(colorType == FIC_MINISWHITE ||
+				(colorType == FIC_MINISBLACK && FreeImage_GetBPP(image) < 8));
+		if (colorType == FIC_PALETTE || unsupportedGray)
 		{
 			FIBITMAP* newImage;
-			if (FreeImage_IsTransparent(image))
+			if (unsupportedGray)
+				newImage = FreeImage_ConvertToGreyscale(image);
+			else if (FreeImage_IsTransparent(image))
 				newImage = FreeImage_ConvertTo32Bits(image);
 			else
 				newImage = FreeImage_ConvertTo24Bits(image);
-- 
2.43.0


From 9a6ce7e3f4d8d388850a45392bcc90a5e65a9490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:42 +0000
Subject: [PATCH 18/52] fix: reading an image from a stream handles reaching
 the end of the stream

---
 lib/src/Image.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/src/Image.cpp b/lib/src/Image.cpp
index b3adb92..660f575 100644
--- a/lib/src/Image.cpp
+++ b/lib/src/Image.cpp
@@ -210,7 +210,10 @@ unsigned int readIStream(void* buffer, unsigned int size, unsigned int count, fi
 {
 	auto stream = reinterpret_cast<std::istream*>(handle);
 	stream->read(reinterpret_cast<char*>(buffer), size*count);
-	return static_cast<unsigned int>(stream->gcount());
+	// Reaching the end isn't an error, FreeImage may seek back afterward.
+	if (stream->eof())
+		stream->clear(stream->rdstate() & ~(std::ios_base::eofbit | std::ios_base::failbit));
+	return size == 0 ? 0U : static_cast<unsigned int>(stream->gcount())/size;
 }
 
 unsigned int writeIStream(void*, unsigned int, unsigned int, fi_handle)
-- 
2.43.0


From 383f523f6c4e55070af1c78e65cc8abfef8efb75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:42 +0000
Subject: [PATCH 19/52] fix: saving an image fails when the stream or file
 rejects the data

---
 lib/src/Image.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/lib/src/Image.cpp b/lib/src/Image.cpp
index 660f575..6cc4860 100644
--- a/lib/src/Image.cpp
+++ b/lib/src/Image.cpp
@@ -23,6 +23,7 @@
 #include <cassert>
 #include <cmath>
 #include <cstdio>
+#include <fstream>
 #include <istream>
 #include <limits>
 #include <ostream>
@@ -260,7 +261,7 @@ unsigned int writeOStream(void* buffer, unsigned int size, unsigned int count, f
 {
 	auto stream = reinterpret_cast<std::ostream*>(handle);
 	stream->write(reinterpret_cast<char*>(buffer), size*count);
-	return count*size;
+	return stream->good() ? count : 0;
 }
 
 int seekOStream(fi_handle handle, long offset, int origin)
@@ -932,7 +933,12 @@ bool Image::save(const char* fileName)
 	if (format == FIF_UNKNOWN)
 		return false;
 
-	return FreeImage_Save(format, m_impl->image, fileName) != false;
+	std::ofstream stream(fileName, std::ofstream::binary);
+	if (!stream.is_open() || !save(stream, fileName))
+		return false;
+
+	stream.close();
+	return stream.good();
 }
 
 bool Image::save(std::ostream& stream, const char* fileName)
@@ -944,7 +950,7 @@ bool Image::save(std::ostream& stream, const char* fileName)
 	if (format == FIF_UNKNOWN)
 		return false;
 
-	return FreeImage_SaveToHandle(format, m_impl->image, &ostreamIO, &stream) != false;
+	return FreeImage_SaveToHandle(format, m_impl->image, &ostreamIO, &stream) && stream.good();
 }
 
 bool Image::save(std::vector<std::uint8_t>& outData, const char* fileName)
-- 
2.43.0


From ecf40567de282a6a6f69b8a78c0c30252e0e2dc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:36 +0000
Subject: [PATCH 20/52] fix: cube maps without mipmaps are marked as complex
 surfaces in DDS files

---
 lib/src/SaveDds.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/SaveDds.cpp b/lib/src/SaveDds.cpp
index b2bcbf3..3c086f5 100644
--- a/lib/src/SaveDds.cpp
+++ b/lib/src/SaveDds.cpp
@@ -592,7 +592,7 @@ Texture::SaveResult saveDds(const Texture& texture, std::ostream& stream)
 	if (texture.mipLevelCount() > 1)
 		header.caps |= DdsCapsFlags_Mipmap;
 	if (texture.mipLevelCount() > 1 || texture.dimension() == Texture::Dimension::Dim3D ||
-		texture.dimension() == Texture::Dimension::Dim3D || texture.isArray())
+		texture.dimension() == Texture::Dimension::Cube || texture.isArray())
 	{
 		header.caps |= DdsCapsFlags_Complex;
 	}
-- 
2.43.0


From 282f91920a025641340ec4d0eb4aa62746fa6454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:36 +0000
Subject: [PATCH 21/52] fix: signed R8G8 textures have a signed type in KTX
 files

---
 lib/src/SaveKtx.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/src/SaveKtx.cpp b/lib/src/SaveKtx.cpp
index b7a45df..faa1f85 100644
--- a/lib/src/SaveKtx.cpp
+++ b/lib/src/SaveKtx.cpp
@@ -298,22 +298,25 @@ static bool getFormatInfo(FormatInfo& info, Texture::Format format, Texture::Typ
 					return false;
 			}
 		case Texture::Format::R8G8:
-			info.type = GL_UNSIGNED_BYTE;
 			info.typeSize = 1;
 			info.format = GL_RG;
 			info.baseInternalFormat = GL_LUMINANCE_ALPHA;
 			switch (type)
 			{
 				case Texture::Type::UNorm:
+					info.type = GL_UNSIGNED_BYTE;
 					info.internalFormat = GL_RG8;
 					return true;
 				case Texture::Type::SNorm:
+					info.type = GL_BYTE;
 					info.internalFormat = GL_RG8_SNORM;
 					return true;
 				case Texture::Type::UInt:
+					info.type = GL_UNSIGNED_BYTE;
 					info.internalFormat = GL_RG8UI;
 					return true;
 				case Texture::Type::Int:
+					info.type = GL_BYTE;
 					info.internalFormat = GL_RG8I;
 					return true;
 				default:
-- 
2.43.0


From 4f4771d2f34a75834900673036a0a2a6498cbaad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:36 +0000
Subject: [PATCH 22/52] fix: B8G8R8A8 and A8B8G8R8 textures have the type for
 their channel order in KTX files

---
 lib/src/SaveKtx.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/src/SaveKtx.cpp b/lib/src/SaveKtx.cpp
index faa1f85..b20fe79 100644
--- a/lib/src/SaveKtx.cpp
+++ b/lib/src/SaveKtx.cpp
@@ -381,7 +381,7 @@ static bool getFormatInfo(FormatInfo& info, Texture::Format format, Texture::Typ
 					return false;
 			}
 		case Texture::Format::B8G8R8A8:
-			info.type = GL_UNSIGNED_INT_8_8_8_8;
+			info.type = GL_UNSIGNED_INT_8_8_8_8_REV;
 			info.typeSize = 4;
 			info.baseInternalFormat = GL_BGRA;
 			switch (type)
@@ -408,7 +408,7 @@ static bool getFormatInfo(FormatInfo& info, Texture::Format format, Texture::Typ
 					return false;
 			}
 		case Texture::Format::A8B8G8R8:
-			info.type = GL_UNSIGNED_INT_8_8_8_8_REV;
+			info.type = GL_UNSIGNED_INT_8_8_8_8;
 			info.typeSize = 4;
 			info.baseInternalFormat = GL_RGBA;
 			switch (type)
-- 
2.43.0


From bf2655762f7547b8e5830483be1df05594964e87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:46 +0000
Subject: [PATCH 23/52] fix: integer textures have an integer pixel format in
 KTX files

---
 lib/src/SaveKtx.cpp | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/lib/src/SaveKtx.cpp b/lib/src/SaveKtx.cpp
index b20fe79..f1030b0 100644
--- a/lib/src/SaveKtx.cpp
+++ b/lib/src/SaveKtx.cpp
@@ -47,6 +47,7 @@
 #define GL_UNSIGNED_SHORT_5_5_5_1         0x8034
 #define GL_RG                             0x8227
 #define GL_RG_INTEGER                     0x8228
+#define GL_RG_INTEGER                     0x8228
 #define GL_R8                             0x8229
 #define GL_R16                            0x822A
 #define GL_RG8                            0x822B
@@ -289,10 +290,12 @@ static bool getFormatInfo(FormatInfo& info, Texture::Format format, Texture::Typ
 				case Texture::Type::UInt:
 					info.type = GL_UNSIGNED_BYTE;
 					info.internalFormat = GL_R8UI;
+					info.format = GL_RED_INTEGER;
 					return true;
 				case Texture::Type::Int:
 					info.type = GL_BYTE;
 					info.internalFormat = GL_R8I;
+					info.format = GL_RED_INTEGER;
 					return true;
 				default:
 					return false;
@@ -314,10 +317,12 @@ static bool getFormatInfo(FormatInfo& info, Texture::Format format, Texture::Typ
 				case Texture::Type::UInt:
 					info.type = GL_UNSIGNED_BYTE;
 					info.internalFormat = GL_RG8UI;
+					info.format = GL_RG_INTEGER;
 					return true;
 				case Texture::Type::Int:
 					info.type = GL_BYTE;
 					info.internalFormat = GL_RG8I;
+					info.format = GL_RG_INTEGER;
 					return true;
 				default:
 					return false;
@@ -341,10 +346,12 @@ static bool getFormatInfo(FormatInfo& info, Texture::Format format, Texture::Typ
 				case Texture::Type::UInt:
 					info.type = GL_UNSIGNED_BYTE;
 					info.internalFormat = GL_RGB8UI;
+					info.format = GL_RGB_INTEGER;
 					return true;
 				case Texture::Type::Int:
 					info.type = GL_BYTE;
 					info.internalFormat = GL_RGB8I;
+					info.format = GL_RGB_INTEGER;
 					return true;
 				default:
 					return false;
@@ -486,10 +493,12 @@ static bool getFormatInfo(FormatInfo& info, Texture::Format format, Texture::Typ
 				case Texture::Type::UInt:
 					info.type = GL_UNSIGNED_SHORT;
 					info.internalFormat = GL_R16UI;
+					info.format = GL_RED_INTEGER;
 					return true;
 				case Texture::Type::Int:
 					info.type = GL_SHORT;
 					info.internalFormat = GL_R16I;
+					info.format = GL_RED_INTEGER;
 					return true;
 				case Texture::Type::Float:
 					info.type = GL_HALF_FLOAT;
@@ -515,10 +524,12 @@ static bool getFormatInfo(FormatInfo& info, Texture::Format format, Texture::Typ
 				case Texture::Type::UInt:
 					info.type = GL_UNSIGNED_SHORT;
 					info.internalFormat = GL_RG16UI;
+					info.format = GL_RG_INTEGER;
 					return true;
 				case Texture::Type::Int:
 					info.type = GL_SHORT;
 					info.internalFormat = GL_RG16I;
+					info.format = GL_RG_INTEGER;
 					return true;
 				case Texture::Type::Float:
 					info.type = GL_HALF_FLOAT;
@@ -543,10 +554,12 @@ static bool getFormatInfo(FormatInfo& info, Texture::Format format, Texture::Typ
 				case Texture::Type::UInt:
 					info.type = GL_UNSIGNED_SHORT;
 					info.internalFormat = GL_RGB16UI;
+					info.format = GL_RGB_INTEGER;
 					return true;
 				case Texture::Type::Int:
 					info.type = GL_SHORT;
 					info.internalFormat = GL_RGB16I;
+					info.format = GL_RGB_INTEGER;
 					return true;
 				case Texture::Type::Float:
 					info.type = GL_HALF_FLOAT;
@@ -571,10 +584,12 @@ static bool getFormatInfo(FormatInfo& info, Texture::Format format, Texture::Typ
 				case Texture::Type::UInt:
 					info.type = GL_UNSIGNED_SHORT;
 					info.internalFormat = GL_RGBA16UI;
+					info.format = GL_RGBA_INTEGER;
 					return true;
 				case Texture::Type::Int:
 					info.type = GL_SHORT;
 					info.internalFormat = GL_RGBA16I;
+					info.format = GL_RGBA_INTEGER;
 					return true;
 				case Texture::Type::Float:
 					info.type = GL_HALF_FLOAT;
@@ -592,10 +607,12 @@ static bool getFormatInfo(FormatInfo& info, Texture::Format format, Texture::Typ
 				case Texture::Type::UInt:
 					info.type = GL_UNSIGNED_INT;
 					info.internalFormat = GL_R32UI;
+					info.format = GL_RED_INTEGER;
 					return true;
 				case Texture::Type::Int:
 					info.type = GL_INT;
 					info.internalFormat = GL_R32I;
+					info.format = GL_RED_INTEGER;
 					return true;
 				case Texture::Type::Float:
 					info.type = GL_FLOAT;
@@ -613,10 +630,12 @@ static bool getFormatInfo(FormatInfo& info, Texture::Format format, Texture::Typ
 				case Texture::Type::UInt:
 					info.type = GL_UNSIGNED_INT;
 					info.internalFormat = GL_RG32UI;
+					info.format = GL_RG_INTEGER;
 					return true;
 				case Texture::Type::Int:
 					info.type = GL_INT;
 					info.internalFormat = GL_RG32I;
+					info.format = GL_RG_INTEGER;
 					return true;
 				case Texture::Type::Float:
 					info.type = GL_FLOAT;
@@ -633,10 +652,12 @@ static bool getFormatInfo(FormatInfo& info, Texture::Format format, Texture::Typ
 				case Texture::Type::UInt:
 					info.type = GL_UNSIGNED_INT;
 					info.internalFormat = GL_RGB32UI;
+					info.format = GL_RGB_INTEGER;
 					return true;
 				case Texture::Type::Int:
 					info.type = GL_INT;
 					info.internalFormat = GL_RGB32I;
+					info.format = GL_RGB_INTEGER;
 					return true;
 				case Texture::Type::Float:
 					info.type = GL_FLOAT;
@@ -653,10 +674,12 @@ static bool getFormatInfo(FormatInfo& info, Texture::Format format, Texture::Typ
 				case Texture::Type::UInt:
 					info.type = GL_UNSIGNED_INT;
 					info.internalFormat = GL_RGBA32UI;
+					info.format = GL_RGBA_INTEGER;
 					return true;
 				case Texture::Type::Int:
 					info.type = GL_INT;
 					info.internalFormat = GL_RGBA32I;
+					info.format = GL_RGBA_INTEGER;
 					return true;
 				case Texture::Type::Float:
 					info.type = GL_FLOAT;
-- 
2.43.0


From fd794e605575ee87b99ea51ebff621f91f209617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:30 +0000
Subject: [PATCH 24/52] fix: converting with a very large number of threads
 only allocates for the threads that are used

---
 lib/src/Converter.cpp | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/lib/src/Converter.cpp b/lib/src/Converter.cpp
index e6fbb77..1497e6e 100644
--- a/lib/src/Converter.cpp
+++ b/lib/src/Converter.cpp
@@ -511,11 +511,6 @@ bool Converter::convert(const Texture& texture, MipImageList& images, MipTexture
 	std::vector<std::pair<unsigned int, unsigned int>> jobs;
 	std::vector<std::unique_ptr<ThreadData>> threadData;
 	std::vector<std::thread> threads;
-	if (threadCount > 1)
-	{
-		threadData.reserve(threadCount);
-		threads.reserve(threadCount);
-	}
 
 	textureData.resize(images.size());
 	for (unsigned int mip = 0; mip < images.size(); ++mip)
-- 
2.43.0


From 09d357e1c2bbcafdd8e00b837739d8feb3ed04c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:30 +0000
Subject: [PATCH 25/52] fix: saving a texture to a file checks the request
 before opening the file and detects errors when closing it

---
 lib/src/Texture.cpp | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/lib/src/Texture.cpp b/lib/src/Texture.cpp
index 266e704..9997e38 100644
--- a/lib/src/Texture.cpp
+++ b/lib/src/Texture.cpp
@@ -1663,10 +1663,29 @@ Texture::SaveResult Texture::save(const char* fileName, FileType fileType)
 	if (fileType == FileType::Auto)
 		fileType = Texture::fileType(fileName);
 
+	// Check for errors unrelated to writing first to avoid replacing the file.
+	switch (fileType)
+	{
+		case FileType::DDS:
+		case FileType::KTX:
+		case FileType::PVR:
+			break;
+		default:
+			return SaveResult::UnknownFormat;
+	}
+	if (!isFormatValid(m_impl->format, m_impl->type, fileType))
+		return SaveResult::Unsupported;
+
 	std::ofstream stream(fileName, std::ofstream::binary);
 	if (!stream.is_open())
 		return SaveResult::WriteError;
-	return save(stream, fileType);
+
+	SaveResult result = save(stream, fileType);
+	// Data may still be buffered, in which case errors aren't known until closing the file.
+	stream.close();
+	if (result == SaveResult::Success && !stream.good())
+		return SaveResult::WriteError;
+	return result;
 }
 
 Texture::SaveResult Texture::save(std::ostream& stream, Texture::FileType fileType)
-- 
2.43.0


From 12f429c4f8281af66528350d371c4854b5d46c44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:30 +0000
Subject: [PATCH 26/52] fix: 1D textures only have a width

---
 lib/src/Texture.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/src/Texture.cpp b/lib/src/Texture.cpp
index 9997e38..2207f6e 100644
--- a/lib/src/Texture.cpp
+++ b/lib/src/Texture.cpp
@@ -1140,8 +1140,11 @@ bool Texture::initialize(Dimension dimension, unsigned int width, unsigned int h
 {
 	reset();
 
-	if (width == 0 || height == 0 || (dimension == Dimension::Dim3D && depth == 0))
+	if (width == 0 || height == 0 || (dimension == Dimension::Dim1D && height != 1) ||
+		(dimension == Dimension::Dim3D && depth == 0))
+	{
 		return false;
+	}
 
 	m_impl.reset(new Impl);
 	m_impl->dimension = dimension;
-- 
2.43.0


From 6f9dd5d3af6927007f583266db0ef9e944299d7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:30 +0000
Subject: [PATCH 27/52] fix: the type option applies regardless of whether it
 is before or after the format option

---
 tool/CommandLine.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tool/CommandLine.cpp b/tool/CommandLine.cpp
index 910c6a4..5ef7126 100644
--- a/tool/CommandLine.cpp
+++ b/tool/CommandLine.cpp
@@ -1318,6 +1318,7 @@ bool CommandLine::parse(int argc, const char** argv)
 			}
 
 			++i;
+			typeSet = true;
 			if (strcasecmp(argv[i], "unorm") == 0)
 				type = Texture::Type::UNorm;
 			else if (strcasecmp(argv[i], "snorm") == 0)
-- 
2.43.0


From 74f2c81a2ef22860bbfc4a62d611930b042da367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:30 +0000
Subject: [PATCH 28/52] fix: an unknown format is an error when a valid format
 was already provided

---
 tool/CommandLine.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tool/CommandLine.cpp b/tool/CommandLine.cpp
index 5ef7126..02fe25a 100644
--- a/tool/CommandLine.cpp
+++ b/tool/CommandLine.cpp
@@ -1281,6 +1281,7 @@ bool CommandLine::parse(int argc, const char** argv)
 			}
 
 			++i;
+			format = Texture::Format::Unknown;
 			for (const auto& formatInfo : formatMap)
 			{
 				if (strcasecmp(formatInfo.second, argv[i]) == 0)
-- 
2.43.0


From 292cd6317c62343a71b1a954d0ab1b51787d8e2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:30 +0000
Subject: [PATCH 29/52] fix: an image list cannot be mixed with other image
 inputs

---
 tool/CommandLine.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tool/CommandLine.cpp b/tool/CommandLine.cpp
index 02fe25a..d57152e 100644
--- a/tool/CommandLine.cpp
+++ b/tool/CommandLine.cpp
@@ -1009,6 +1009,7 @@ bool CommandLine::parse(int argc, const char** argv)
 				break;
 			}
 
+			imageFile = true;
 			if (!readImageList(images, argv[++i]))
 			{
 				success = false;
-- 
2.43.0


From 307f2eb2139f9e3d5543015fe687054a674d594c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:30 +0000
Subject: [PATCH 30/52] fix: negative and out of range indices are rejected by
 the tool

---
 tool/CommandLine.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/tool/CommandLine.cpp b/tool/CommandLine.cpp
index d57152e..5643cde 100644
--- a/tool/CommandLine.cpp
+++ b/tool/CommandLine.cpp
@@ -19,6 +19,7 @@
 #include <cstdlib>
 #include <cstring>
 #include <fstream>
+#include <limits>
 #include <iostream>
 #include <utility>
 
@@ -283,8 +284,12 @@ bool readIndex(std::size_t& index, int& i, int argc, const char** argv)
 
 	char* endPtr;
 	const char* str = argv[i + 1];
+	// Don't accept whitespace and signs, which are handled by strtoul().
+	if (*str < '0' || *str > '9')
+		return false;
+
 	unsigned long value = std::strtoul(str, &endPtr, 10);
-	if (endPtr != str + std::strlen(str))
+	if (endPtr != str + std::strlen(str) || value > std::numeric_limits<unsigned int>::max())
 		return false;
 
 	++i;
-- 
2.43.0


From b79653467f143b1b1ebca2285a2fec870da050f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:30 +0000
Subject: [PATCH 31/52] fix: large array indices for images are rejected rather
 than running out of memory

---
 tool/CommandLine.cpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/tool/CommandLine.cpp b/tool/CommandLine.cpp
index 5643cde..bfc8cf8 100644
--- a/tool/CommandLine.cpp
+++ b/tool/CommandLine.cpp
@@ -884,6 +884,14 @@ bool CommandLine::parse(int argc, const char** argv)
 			if (i < argc - 2)
 				readIndex(index, i, argc, argv);
 
+			// Each image requires at least one argument, so some images would be missing.
+			if (index >= static_cast<std::size_t>(argc))
+			{
+				std::cerr << "error: not all images were provided" << std::endl;
+				success = false;
+				break;
+			}
+
 			if (index >= images.size())
 				images.resize(index + 1);
 
@@ -969,6 +977,14 @@ bool CommandLine::parse(int argc, const char** argv)
 
 			assert(i < argc - 1);
 			++i;
+			// Each image requires at least one argument, so some images would be missing.
+			if (cubeIndex >= static_cast<std::size_t>(argc))
+			{
+				std::cerr << "error: not all images were provided" << std::endl;
+				success = false;
+				break;
+			}
+
 			if (cubeIndex*6 >= images.size())
 				images.resize((cubeIndex + 1)*6);
 
-- 
2.43.0


From bdb78eebcefe59906949f48aa1177bb3644bb713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:30 +0000
Subject: [PATCH 32/52] fix: resize dimensions must be positive, as negative
 values were treated as named sizes

---
 tool/CommandLine.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tool/CommandLine.cpp b/tool/CommandLine.cpp
index bfc8cf8..1676ef4 100644
--- a/tool/CommandLine.cpp
+++ b/tool/CommandLine.cpp
@@ -469,8 +469,9 @@ bool readSize(int& size, int& i, int argc, const char** argv)
 	else
 	{
 		char* endPtr;
-		unsigned long value = std::strtol(argv[i], &endPtr, 10);
-		if (endPtr != argv[i] + std::strlen(argv[i]))
+		long value = std::strtol(argv[i], &endPtr, 10);
+		if (endPtr != argv[i] + std::strlen(argv[i]) || value <= 0 ||
+			value > std::numeric_limits<int>::max())
 		{
 			std::cerr << "error: invalid size " << argv[i] << std::endl;
 			return false;
-- 
2.43.0


From 856463bca8ac4d475364b1ec36e0a55cb9ec02d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:54 +0000
Subject: [PATCH 33/52] fix: custom mip depths and levels are validated for
 cube maps and out of range levels

---
 tool/CommandLine.cpp | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/tool/CommandLine.cpp b/tool/CommandLine.cpp
index 1676ef4..e84f1dc 100644
--- a/tool/CommandLine.cpp
+++ b/tool/CommandLine.cpp
@@ -21,6 +21,7 @@
 #include <fstream>
 #include <limits>
 #include <iostream>
+#include <map>
 #include <utility>
 
 #if CUTTLEFISH_WINDOWS
@@ -627,6 +628,11 @@ bool readCustomMipList(CommandLine::CustomMipImages& customMipImages, const char
 	return true;
 }
 
+unsigned int levelDepth(unsigned int depth, unsigned int level)
+{
+	return level < std::numeric_limits<unsigned int>::digits ? std::max(depth >> level, 1U) : 1U;
+}
+
 bool validate(CommandLine& args)
 {
 	if (args.images.empty())
@@ -757,7 +763,9 @@ bool validate(CommandLine& args)
 	}
 
 	auto depth = static_cast<unsigned int>(args.images.size());
-	std::vector<unsigned int> levelDepthCounts;
+	if (args.dimension == Texture::Dimension::Cube)
+		depth /= 6;
+	std::map<unsigned int, unsigned int> levelDepthCounts;
 	for (const auto& customMip : args.customMipImages)
 	{
 		if (customMip.first.mipLevel == 0)
@@ -769,9 +777,7 @@ bool validate(CommandLine& args)
 		unsigned int thisDepth = depth;
 		if (args.dimension == Texture::Dimension::Dim3D)
 		{
-			thisDepth = std::max(depth >> customMip.first.mipLevel, 1U);
-			if (levelDepthCounts.size() <= customMip.first.mipLevel)
-				levelDepthCounts.resize(customMip.first.mipLevel + 1, 0);
+			thisDepth = levelDepth(depth, customMip.first.mipLevel);
 			++levelDepthCounts[customMip.first.mipLevel];
 		}
 
@@ -784,13 +790,13 @@ bool validate(CommandLine& args)
 	}
 
 	// 3D textures must have either no depths or all depths provided.
-	for (unsigned int i = 0; i < levelDepthCounts.size(); ++i)
+	for (const auto& levelDepthCount : levelDepthCounts)
 	{
-		unsigned int thisDepth = std::max(depth >> i, 1U);
-		if (levelDepthCounts[i] > 0 && levelDepthCounts[i] != thisDepth)
+		unsigned int thisDepth = levelDepth(depth, levelDepthCount.first);
+		if (levelDepthCount.second != thisDepth)
 		{
-			std::cerr << "error: must provide custom mips for all depths in level " << i <<
-				std::endl;
+			std::cerr << "error: must provide custom mips for all depths in level " <<
+				levelDepthCount.first << std::endl;
 			return false;
 		}
 	}
-- 
2.43.0


From 753bceff2fbdb6f0e632f98c54e286dd4fa02025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:21 +0000
Subject: [PATCH 34/52] fix: custom mip normal maps keep their orientation when
 rotating

---
 tool/main.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/tool/main.cpp b/tool/main.cpp
index 161f1f3..07a14b4 100644
--- a/tool/main.cpp
+++ b/tool/main.cpp
@@ -204,6 +204,13 @@ bool loadAndProcessImage(Image& image, CommandLine& args, const std::string& pat
 		if (args.log == CommandLine::Log::Verbose)
 			std::cout << "rotating image '" << path << "'" << std::endl;
 		image = image.rotate(args.rotateAngle);
+
+		// The size for the mip level follows the rotated image.
+		if (image.width() != normalWidth)
+		{
+			std::swap(normalWidth, normalHeight);
+			std::swap(thisWidth, thisHeight);
+		}
 	}
 
 	if (args.grayscale)
-- 
2.43.0


From 6c29df5f0562504d33fd37e6fc67d72d632a567d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:18 +0000
Subject: [PATCH 35/52] fix: A4R4G4B4 has an alpha channel

---
 lib/src/Texture.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/src/Texture.cpp b/lib/src/Texture.cpp
index 2207f6e..5d94ec9 100644
--- a/lib/src/Texture.cpp
+++ b/lib/src/Texture.cpp
@@ -472,6 +472,7 @@ bool Texture::hasAlpha(Format format)
 	{
 		case Texture::Format::R4G4B4A4:
 		case Texture::Format::B4G4R4A4:
+		case Texture::Format::A4R4G4B4:
 		case Texture::Format::R5G5B5A1:
 		case Texture::Format::B5G5R5A1:
 		case Texture::Format::A1R5G5B5:
-- 
2.43.0


From d750e8ffa5798c35ec73d414bb00a45ec5ddd7c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:00 +0000
Subject: [PATCH 36/52] fix: report the channel shifts of 24 and 32 bit RGB
 images

---
 lib/src/Image.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/src/Image.cpp b/lib/src/Image.cpp
index 6cc4860..2b86a11 100644
--- a/lib/src/Image.cpp
+++ b/lib/src/Image.cpp
@@ -750,21 +750,21 @@ struct Image::Impl
 		alphaMask(format == Format::RGBA8 ? FI_RGBA_ALPHA_MASK : 0), redShift(0),
 		greenShift(0), blueShift(0), alphaShift(0)
 	{
-		if (redMask == FI_RGBA_RED)
+		if (redMask == FI_RGBA_RED_MASK)
 			redShift = FI_RGBA_RED_SHIFT;
 		else if (redMask == FI16_555_RED_MASK)
 			redShift = FI16_555_RED_SHIFT;
 		else if (redMask == FI16_565_RED_MASK)
 			redShift = FI16_565_RED_SHIFT;
 
-		if (greenMask == FI_RGBA_GREEN)
+		if (greenMask == FI_RGBA_GREEN_MASK)
 			greenShift = FI_RGBA_GREEN_SHIFT;
 		else if (greenMask == FI16_555_GREEN_MASK)
 			greenShift = FI16_555_GREEN_SHIFT;
 		else if (greenMask == FI16_565_GREEN_MASK)
 			greenShift = FI16_565_GREEN_SHIFT;
 
-		if (blueMask == FI_RGBA_BLUE)
+		if (blueMask == FI_RGBA_BLUE_MASK)
 			blueShift = FI_RGBA_BLUE_SHIFT;
 		else if (blueMask == FI16_555_BLUE_MASK)
 			blueShift = FI16_555_BLUE_SHIFT;
-- 
2.43.0


From 460973a4927c78503c0e058bb473f08fb58ddd65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:50 +0000
Subject: [PATCH 37/52] fix: resizing RGB5 and RGB565 images keeps the pixel
 format

FreeImage rescales 16-bit images to 24-bit images, which were interpreted as 16-bit.
---
 lib/src/Image.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/lib/src/Image.cpp b/lib/src/Image.cpp
index 2b86a11..0d09de8 100644
--- a/lib/src/Image.cpp
+++ b/lib/src/Image.cpp
@@ -1365,6 +1365,15 @@ Image Image::resize(unsigned int width, unsigned int height, ResizeFilter filter
 		case Format::Double:
 		case Format::Complex:
 			break;
+		case Format::RGB5:
+		case Format::RGB565:
+			// FreeImage rescales 16-bit images to 24-bit images.
+			image.m_impl.reset(Impl::create(
+				FreeImage_Rescale(m_impl->image, width, height, fiFilter), m_impl->colorSpace,
+				Format::Invalid));
+			if (image)
+				image = image.convert(m_impl->format);
+			break;
 		default:
 			image.m_impl.reset(Impl::create(
 				FreeImage_Rescale(m_impl->image, width, height, fiFilter), m_impl->colorSpace,
-- 
2.43.0


From 49d4ccdf1439450b40b4cc0b3f910ca284180935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:18 +0000
Subject: [PATCH 38/52] fix: resizing integer images rounds the weighted
 average

The inexact weights turned uniform values into the next lower integer.
---
 lib/src/Image.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/lib/src/Image.cpp b/lib/src/Image.cpp
index 0d09de8..eb88805 100644
--- a/lib/src/Image.cpp
+++ b/lib/src/Image.cpp
@@ -1390,6 +1390,9 @@ Image Image::resize(unsigned int width, unsigned int height, ResizeFilter filter
 		double offsetY = std::max(invScaleY, 1.0);
 		double filterScaleX = 1.0/offsetX;
 		double filterScaleY = 1.0/offsetY;
+		// Integers drop the fraction, which would otherwise be off by one from inexact weights.
+		bool integer = m_impl->format == Format::Int16 || m_impl->format == Format::Int32 ||
+			m_impl->format == Format::UInt32;
 
 		switch (filter)
 		{
@@ -1444,6 +1447,8 @@ Image Image::resize(unsigned int width, unsigned int height, ResizeFilter filter
 						color.g /= totalScale;
 						color.b /= totalScale;
 						color.a /= totalScale;
+						if (integer)
+							color.r = std::round(color.r);
 						setPixelNoGrayscaleImpl(image.m_impl->format, dstScanline, x, color);
 					}
 				}
@@ -1502,6 +1507,8 @@ Image Image::resize(unsigned int width, unsigned int height, ResizeFilter filter
 						color.g /= totalScale;
 						color.b /= totalScale;
 						color.a /= totalScale;
+						if (integer)
+							color.r = std::round(color.r);
 						setPixelNoGrayscaleImpl(image.m_impl->format, dstScanline, x, color);
 					}
 				}
-- 
2.43.0


From f4bd32e319315c470aef2ea0ee9259a32e4bdee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:40 +0000
Subject: [PATCH 39/52] fix: keep the transparency of grayscale images with a
 transparency table

An 8-bit or smaller grayscale image with a transparency table (e.g. PNG tRNS)
was loaded as an opaque image.
---
 lib/src/Image.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/lib/src/Image.cpp b/lib/src/Image.cpp
index eb88805..8dd8f52 100644
--- a/lib/src/Image.cpp
+++ b/lib/src/Image.cpp
@@ -715,13 +715,16 @@ struct Image::Impl
 		bool unsupportedGray = FreeImage_GetImageType(image) == FIT_BITMAP &&
 			(colorType == FIC_MINISWHITE ||
 				(colorType == FIC_MINISBLACK && FreeImage_GetBPP(image) < 8));
-		if (colorType == FIC_PALETTE || unsupportedGray)
+		// Gray images may also have a transparency table, which can only be represented with RGBA8.
+		bool transparentTable = FreeImage_GetImageType(image) == FIT_BITMAP &&
+			FreeImage_GetBPP(image) <= 8 && FreeImage_IsTransparent(image);
+		if (colorType == FIC_PALETTE || unsupportedGray || transparentTable)
 		{
 			FIBITMAP* newImage;
-			if (unsupportedGray)
-				newImage = FreeImage_ConvertToGreyscale(image);
-			else if (FreeImage_IsTransparent(image))
+			if (transparentTable)
 				newImage = FreeImage_ConvertTo32Bits(image);
+			else if (unsupportedGray)
+				newImage = FreeImage_ConvertToGreyscale(image);
 			else
 				newImage = FreeImage_ConvertTo24Bits(image);
 
-- 
2.43.0


From e6ad9e36f30d793709c265b90d312853242587e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:06 +0000
Subject: [PATCH 40/52] fix: refuse to save images in file formats that cannot
 hold them

FreeImage leaves this check to the caller: saving e.g. a grayscale image as
WebP corrupted memory, and a 16-bit image as BMP gave an unreadable file while
save() returned true.
---
 lib/src/Image.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/lib/src/Image.cpp b/lib/src/Image.cpp
index 8dd8f52..f563d50 100644
--- a/lib/src/Image.cpp
+++ b/lib/src/Image.cpp
@@ -294,6 +294,16 @@ long tellOStream(fi_handle handle)
 
 FreeImageIO ostreamIO{&readOStream, &writeOStream, &seekOStream, tellOStream};
 
+// FreeImage doesn't reliably reject images that the file format can't hold.
+bool canSave(FREE_IMAGE_FORMAT format, FIBITMAP* image)
+{
+	FREE_IMAGE_TYPE type = FreeImage_GetImageType(image);
+	if (!FreeImage_FIFSupportsWriting(format) || !FreeImage_FIFSupportsExportType(format, type))
+		return false;
+
+	return type != FIT_BITMAP || FreeImage_FIFSupportsExportBPP(format, FreeImage_GetBPP(image));
+}
+
 double toDoubleNorm(std::uint8_t value)
 {
 	return value/255.0;
@@ -933,7 +943,7 @@ bool Image::save(const char* fileName)
 		return false;
 
 	FREE_IMAGE_FORMAT format = FreeImage_GetFIFFromFilename(fileName);
-	if (format == FIF_UNKNOWN)
+	if (format == FIF_UNKNOWN || !canSave(format, m_impl->image))
 		return false;
 
 	std::ofstream stream(fileName, std::ofstream::binary);
@@ -950,7 +960,7 @@ bool Image::save(std::ostream& stream, const char* fileName)
 		return false;
 
 	FREE_IMAGE_FORMAT format = FreeImage_GetFIFFromFilename(fileName);
-	if (format == FIF_UNKNOWN)
+	if (format == FIF_UNKNOWN || !canSave(format, m_impl->image))
 		return false;
 
 	return FreeImage_SaveToHandle(format, m_impl->image, &ostreamIO, &stream) && stream.good();
-- 
2.43.0


From 416ed576162f2d441c0491180a7a33354425611e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:36 +0000
Subject: [PATCH 41/52] fix: save TIFF images to in-memory streams

The TIFF writer seeks past the end of the file, which string streams refuse, so
saving a TIFF image to a vector or string stream failed depending on its size.
---
 lib/src/Image.cpp | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/lib/src/Image.cpp b/lib/src/Image.cpp
index f563d50..264cf46 100644
--- a/lib/src/Image.cpp
+++ b/lib/src/Image.cpp
@@ -282,7 +282,25 @@ int seekOStream(fi_handle handle, long offset, int origin)
 		default:
 			return -1;
 	}
+	if (!stream->good())
+		return -1;
+
 	stream->seekp(offset, dir);
+	if (stream->good() || origin != SEEK_SET)
+		return stream->good() ? 0 : -1;
+
+	// Unlike files, in-memory streams can't seek past the end. Fill the gap with zeros.
+	stream->clear();
+	stream->seekp(0, std::ios_base::end);
+	long end = static_cast<long>(stream->tellp());
+	if (end < 0 || end > offset)
+	{
+		stream->setstate(std::ios_base::failbit);
+		return -1;
+	}
+
+	for (; end < offset && stream->good(); ++end)
+		stream->put(0);
 	return stream->good() ? 0 : -1;
 }
 
-- 
2.43.0


From 936e7c664e703d64a68fb1c88b853f305a63e1ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:56 +0000
Subject: [PATCH 42/52] fix: detect the type of small images in in-memory
 streams

Detecting the file type seeks past the end of small files, which string streams
refuse. The stream remained in a failed state and e.g. small WebP images
couldn't be loaded.
---
 lib/src/Image.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/lib/src/Image.cpp b/lib/src/Image.cpp
index 264cf46..72f9f0e 100644
--- a/lib/src/Image.cpp
+++ b/lib/src/Image.cpp
@@ -241,7 +241,14 @@ int seekIStream(fi_handle handle, long offset, int origin)
 			return -1;
 	}
 	stream->seekg(offset, dir);
-	return stream->good() ? 0 : -1;
+	if (stream->good())
+		return 0;
+
+	// Unlike files, in-memory streams can't seek past the end. Keep the stream usable, since FreeImage
+	// will seek back afterward when detecting the file type.
+	stream->clear(stream->rdstate() & ~std::ios_base::failbit);
+	stream->seekg(0, std::ios_base::end);
+	return -1;
 }
 
 long tellIStream(fi_handle handle)
-- 
2.43.0


From 12ed7514250b85afafe8cbdef3e8e7188ec53c67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:09 +0000
Subject: [PATCH 43/52] fix: Read indices in custom mip lists like on the
 command line

---
 tool/CommandLine.cpp | 33 +++++++++++++++------------------
 1 file changed, 15 insertions(+), 18 deletions(-)

diff --git a/tool/CommandLine.cpp b/tool/CommandLine.cpp
index e84f1dc..e4586ee 100644
--- a/tool/CommandLine.cpp
+++ b/tool/CommandLine.cpp
@@ -278,26 +278,30 @@ bool matches(const char* command, const char* shortCmd, const char* longCmd)
 	return std::strcmp(command, shortCmd) == 0 || std::strcmp(command, longCmd) == 0;
 }
 
-bool readIndex(std::size_t& index, int& i, int argc, const char** argv)
+bool parseIndex(std::size_t& index, const char* str)
 {
-	if (i >= argc - 1)
-		return false;
-
-	char* endPtr;
-	const char* str = argv[i + 1];
 	// Don't accept whitespace and signs, which are handled by strtoul().
 	if (*str < '0' || *str > '9')
 		return false;
 
+	char* endPtr;
 	unsigned long value = std::strtoul(str, &endPtr, 10);
 	if (endPtr != str + std::strlen(str) || value > std::numeric_limits<unsigned int>::max())
 		return false;
 
-	++i;
 	index = value;
 	return true;
 }
 
+bool readIndex(std::size_t& index, int& i, int argc, const char** argv)
+{
+	if (i >= argc - 1 || !parseIndex(index, argv[i + 1]))
+		return false;
+
+	++i;
+	return true;
+}
+
 bool strToCubeFace(Texture::CubeFace& face, const char* str)
 {
 	if (strcasecmp(str, "+x") == 0)
@@ -574,10 +578,8 @@ bool readCustomMipList(CommandLine::CustomMipImages& customMipImages, const char
 		if (curStr.empty())
 			continue;
 
-		char* endPtr;
-		const char* str = curStr.c_str();
-		std::size_t level = std::strtoul(str, &endPtr, 10);
-		if (endPtr != str + curStr.size())
+		std::size_t level = 0;
+		if (!parseIndex(level, curStr.c_str()))
 		{
 			std::cerr << "error: invalid mip level " << curStr << std::endl;
 			return false;
@@ -586,13 +588,8 @@ bool readCustomMipList(CommandLine::CustomMipImages& customMipImages, const char
 		delim = readNextToken(curStr, stream, whitespace, newline, delim);
 
 		std::size_t depth = 0;
-		str = curStr.c_str();
-		std::size_t value = std::strtoul(str, &endPtr, 10);
-		if (endPtr == str + curStr.size())
-		{
-			depth = value;
+		if (parseIndex(depth, curStr.c_str()))
 			delim = readNextToken(curStr, stream, whitespace, newline, delim);
-		}
 
 		auto face = Texture::CubeFace::PosX;
 		if (strToCubeFace(face, curStr.c_str()))
@@ -1081,7 +1078,7 @@ bool CommandLine::parse(int argc, const char** argv)
 				break;
 			}
 
-			std::size_t level;
+			std::size_t level = 0;
 			if (!readIndex(level, i, argc, argv))
 			{
 				std::cerr << "error: invalid mip level " << argv[i] << std::endl;
-- 
2.43.0


From 2be1ef4dea797737dbd1759723e372f5c41bae80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:12 +0000
Subject: [PATCH 44/52] fix: Reset the default type when the format is given
 again

---
 tool/CommandLine.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tool/CommandLine.cpp b/tool/CommandLine.cpp
index e4586ee..584ff91 100644
--- a/tool/CommandLine.cpp
+++ b/tool/CommandLine.cpp
@@ -1333,6 +1333,8 @@ bool CommandLine::parse(int argc, const char** argv)
 				{
 					type = Texture::Type::UFloat;
 				}
+				else
+					type = Texture::Type::UNorm;
 			}
 		}
 		else if (matches(argv[i], "-t", "--type"))
-- 
2.43.0


From 533e3bb3882ddd57d95448d80356282c7199ad41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:03 +0000
Subject: [PATCH 45/52] fix: Different replacements for the depths of a 3D mip
 level silently skipped mipmaps

---
 tool/CommandLine.cpp | 11 +++++++++++
 tool/main.cpp        |  6 +++++-
 2 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/tool/CommandLine.cpp b/tool/CommandLine.cpp
index 584ff91..30e5250 100644
--- a/tool/CommandLine.cpp
+++ b/tool/CommandLine.cpp
@@ -763,6 +763,7 @@ bool validate(CommandLine& args)
 	if (args.dimension == Texture::Dimension::Cube)
 		depth /= 6;
 	std::map<unsigned int, unsigned int> levelDepthCounts;
+	std::map<unsigned int, Texture::MipReplacement> levelReplacements;
 	for (const auto& customMip : args.customMipImages)
 	{
 		if (customMip.first.mipLevel == 0)
@@ -776,6 +777,16 @@ bool validate(CommandLine& args)
 		{
 			thisDepth = levelDepth(depth, customMip.first.mipLevel);
 			++levelDepthCounts[customMip.first.mipLevel];
+
+			// All depths must also agree on the replacement.
+			auto replacement = levelReplacements.emplace(
+				customMip.first.mipLevel, customMip.second.replacement).first;
+			if (replacement->second != customMip.second.replacement)
+			{
+				std::cerr << "error: custom mips for all depths in level " <<
+					customMip.first.mipLevel << " must use the same replacement" << std::endl;
+				return false;
+			}
 		}
 
 		if (customMip.first.depth >= thisDepth)
diff --git a/tool/main.cpp b/tool/main.cpp
index 07a14b4..f23f2a3 100644
--- a/tool/main.cpp
+++ b/tool/main.cpp
@@ -377,7 +377,11 @@ bool saveTexture(
 	{
 		if (args.log == CommandLine::Log::Verbose)
 			std::cout << "generating mipmaps" << std::endl;
-		texture.generateMipmaps(args.mipFilter, args.mipLevels, customMipImages);
+		if (!texture.generateMipmaps(args.mipFilter, args.mipLevels, customMipImages))
+		{
+			std::cerr << "error: failed to generate mipmaps" << std::endl;
+			return false;
+		}
 		customMipImages.clear();
 	}
 
-- 
2.43.0


From f69df6111b52347033e4c36e4cb5a8651d1b7718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:59 +0000
Subject: [PATCH 46/52] fix: images leaked their pixels when running out of
 memory

---
 lib/src/Image.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lib/src/Image.cpp b/lib/src/Image.cpp
index 72f9f0e..209bf73 100644
--- a/lib/src/Image.cpp
+++ b/lib/src/Image.cpp
@@ -26,6 +26,7 @@
 #include <fstream>
 #include <istream>
 #include <limits>
+#include <new>
 #include <ostream>
 #include <sstream>
 
@@ -777,7 +778,10 @@ struct Image::Impl
 			return nullptr;
 		}
 
-		return new Impl(image, format, colorSpace);
+		Impl* impl = new (std::nothrow) Impl(image, format, colorSpace);
+		if (!impl)
+			FreeImage_Unload(image);
+		return impl;
 	}
 
 	Impl(FIBITMAP* img, Format format, ColorSpace colorSpace)
-- 
2.43.0


From 19a1345c95e9de0d52e67b315f9f5a7007b984c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:59 +0000
Subject: [PATCH 47/52] fix: textures were inconsistent after running out of
 memory when initialized or assigned

---
 lib/src/Texture.cpp | 34 +++++++++++++++++-----------------
 1 file changed, 17 insertions(+), 17 deletions(-)

diff --git a/lib/src/Texture.cpp b/lib/src/Texture.cpp
index 5d94ec9..f5cb147 100644
--- a/lib/src/Texture.cpp
+++ b/lib/src/Texture.cpp
@@ -1113,10 +1113,8 @@ Texture& Texture::operator=(const Texture& other)
 
 	if (other.m_impl)
 	{
-		if (m_impl)
-			*m_impl = *other.m_impl;
-		else
-			m_impl.reset(new Impl(*other.m_impl));
+		// Only replace the current contents once the copy is complete.
+		m_impl.reset(new Impl(*other.m_impl));
 	}
 	else
 		reset();
@@ -1147,25 +1145,27 @@ bool Texture::initialize(Dimension dimension, unsigned int width, unsigned int h
 		return false;
 	}
 
-	m_impl.reset(new Impl);
-	m_impl->dimension = dimension;
-	m_impl->colorSpace = colorSpace;
-	m_impl->width = width;
-	m_impl->height = height;
-	m_impl->depth = depth;
-	m_impl->mipLevels = std::min(std::max(mipLevels, 1U),
+	// Only keep the texture once it has storage for all of the images.
+	std::unique_ptr<Impl> impl(new Impl);
+	impl->dimension = dimension;
+	impl->colorSpace = colorSpace;
+	impl->width = width;
+	impl->height = height;
+	impl->depth = depth;
+	impl->mipLevels = std::min(std::max(mipLevels, 1U),
 		maxMipmapLevels(dimension, width, height, depth));
-	m_impl->faces = dimension == Dimension::Cube ? 6 : 1;
+	impl->faces = dimension == Dimension::Cube ? 6 : 1;
 
-	m_impl->images.resize(m_impl->mipLevels);
-	for (unsigned int mip = 0; mip < m_impl->mipLevels; ++mip)
+	impl->images.resize(impl->mipLevels);
+	for (unsigned int mip = 0; mip < impl->mipLevels; ++mip)
 	{
-		DepthImageList& depthImages = m_impl->images[mip];
-		depthImages.resize(Texture::depth(mip));
+		DepthImageList& depthImages = impl->images[mip];
+		depthImages.resize(std::max(dimension == Dimension::Dim3D ? depth >> mip : depth, 1U));
 		for (FaceImageList& faceImages : depthImages)
-			faceImages.resize(m_impl->faces);
+			faceImages.resize(impl->faces);
 	}
 
+	m_impl = std::move(impl);
 	return true;
 }
 
-- 
2.43.0


From e8c8c0f61da410e573ea74d1c8637eb077bde0f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:59 +0000
Subject: [PATCH 48/52] fix: textures counted as converted after running out of
 memory during the conversion

---
 lib/src/Texture.cpp | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/lib/src/Texture.cpp b/lib/src/Texture.cpp
index f5cb147..719cbda 100644
--- a/lib/src/Texture.cpp
+++ b/lib/src/Texture.cpp
@@ -1574,14 +1574,24 @@ bool Texture::convert(Format format, Type type, Quality quality, Alpha alphaType
 	if (threads == allCores)
 		threads = std::thread::hardware_concurrency();
 
-	if (!Converter::convert(*this, m_impl->images, m_impl->textures, quality, threads))
+	bool success;
+	try
+	{
+		success = Converter::convert(*this, m_impl->images, m_impl->textures, quality, threads);
+	}
+	catch (...)
 	{
 		m_impl->format = Format::Unknown;
 		m_impl->textures.clear();
-		return false;
+		throw;
 	}
 
-	return true;
+	if (!success)
+	{
+		m_impl->format = Format::Unknown;
+		m_impl->textures.clear();
+	}
+	return success;
 }
 
 bool Texture::converted() const
-- 
2.43.0


From 0e816c0bca2e903f9dbabf1e5a2505fc02d348de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:59 +0000
Subject: [PATCH 49/52] fix: conversions terminated the process when not all
 threads could be created

---
 lib/src/Converter.cpp | 38 +++++++++++++++++++++++++-------------
 1 file changed, 25 insertions(+), 13 deletions(-)

diff --git a/lib/src/Converter.cpp b/lib/src/Converter.cpp
index 1497e6e..03f4a3f 100644
--- a/lib/src/Converter.cpp
+++ b/lib/src/Converter.cpp
@@ -23,6 +23,7 @@
 #include <algorithm>
 #include <atomic>
 #include <cassert>
+#include <exception>
 #include <thread>
 #include <utility>
 
@@ -555,21 +556,32 @@ bool Converter::convert(const Texture& texture, MipImageList& images, MipTexture
 					for (unsigned int i = 0; i < curThreads; ++i)
 						threadData.push_back(converter->createThreadData());
 
-					for (unsigned int i = 0; i < curThreads; ++i)
-					{
-						Converter::ThreadData* threadDataPtr = threadData[i].get();
-						threads.emplace_back([&curJob, &jobs, &converter, threadDataPtr]()
+					auto processJobs = [&curJob, &jobs, &converter](ThreadData* threadDataPtr)
+						{
+							do
 							{
-								do
-								{
-									unsigned int thisJob = curJob++;
-									if (thisJob >= jobs.size())
-										return;
+								unsigned int thisJob = curJob++;
+								if (thisJob >= jobs.size())
+									return;
+
+								converter->process(jobs[thisJob].first, jobs[thisJob].second,
+									threadDataPtr);
+							} while (true);
+						};
 
-									converter->process(jobs[thisJob].first, jobs[thisJob].second,
-										threadDataPtr);
-								} while (true);
-							});
+					for (unsigned int i = 0; i < curThreads; ++i)
+					{
+						try
+						{
+							threads.emplace_back(processJobs, threadData[i].get());
+						}
+						catch (const std::exception&)
+						{
+							// Not all of the threads could be created, so continue with what's
+							// available and help out on this thread.
+							processJobs(threadData[i].get());
+							break;
+						}
 					}
 
 					for (std::thread& thread : threads)
-- 
2.43.0


From f03a6b314a0f13d254287d11a83fab27d2b82938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:26 +0000
Subject: [PATCH 50/52] fix: mipmap generation reported success or crashed when
 running out of memory

---
 lib/src/Texture.cpp | 60 +++++++++++++++++++++++++++++----------------
 1 file changed, 39 insertions(+), 21 deletions(-)

diff --git a/lib/src/Texture.cpp b/lib/src/Texture.cpp
index 719cbda..ef64527 100644
--- a/lib/src/Texture.cpp
+++ b/lib/src/Texture.cpp
@@ -100,7 +100,7 @@ inline std::uint32_t clz(std::uint32_t x)
 #endif
 }
 
-void generateMips3d(std::vector<Image>& outMipImages, const std::vector<Image>& prevLevelImages,
+bool generateMips3d(std::vector<Image>& outMipImages, const std::vector<Image>& prevLevelImages,
 	unsigned int width, unsigned int height, unsigned int depth, ColorSpace colorSpace,
 	Image::ResizeFilter filter)
 {
@@ -113,7 +113,9 @@ void generateMips3d(std::vector<Image>& outMipImages, const std::vector<Image>&
 	{
 		for (unsigned int d = 0; d < depth; ++d)
 		{
-			outMipImages[d].initialize(Image::Format::RGBAF, width, height, colorSpace);
+			if (!outMipImages[d].initialize(Image::Format::RGBAF, width, height, colorSpace))
+				return false;
+
 			double center = (d + 0.5)*invScale;
 			unsigned int start = std::max(static_cast<int>(center - offset + 0.5), 0);
 			unsigned int end = std::min(
@@ -169,7 +171,9 @@ void generateMips3d(std::vector<Image>& outMipImages, const std::vector<Image>&
 	{
 		for (unsigned int d = 0; d < depth; ++d)
 		{
-			outMipImages[d].initialize(Image::Format::RGBAF, width, height, colorSpace);
+			if (!outMipImages[d].initialize(Image::Format::RGBAF, width, height, colorSpace))
+				return false;
+
 			double center = (d + 0.5)*invScale;
 			unsigned int start = std::max(static_cast<int>(center - offset + 0.5), 0);
 			unsigned int end = std::min(
@@ -224,6 +228,8 @@ void generateMips3d(std::vector<Image>& outMipImages, const std::vector<Image>&
 			}
 		}
 	}
+
+	return true;
 }
 
 } // namespace
@@ -1381,8 +1387,19 @@ bool Texture::generateMipmaps(Image::ResizeFilter filter, unsigned int mipLevels
 		m_impl->textures.clear();
 	}
 
+	// Set up the storage first.
+	MipImageList images(mipLevels);
+	for (unsigned int mip = 1; mip < mipLevels; ++mip)
+	{
+		unsigned int mipDepth = std::max(
+			m_impl->dimension == Dimension::Dim3D ? m_impl->depth >> mip : m_impl->depth, 1U);
+		images[mip].resize(mipDepth);
+		for (FaceImageList& faceImages : images[mip])
+			faceImages.resize(m_impl->faces);
+	}
+	images[0] = std::move(m_impl->images[0]);
+	m_impl->images = std::move(images);
 	m_impl->mipLevels = mipLevels;
-	m_impl->images.resize(mipLevels);
 
 	if (m_impl->dimension == Dimension::Dim3D)
 	{
@@ -1425,8 +1442,17 @@ bool Texture::generateMipmaps(Image::ResizeFilter filter, unsigned int mipLevels
 						image = image.resize(mipWidth, mipHeight, filter);
 				}
 
-				generateMips3d(mipImages, inputImages, mipWidth, mipHeight, mipDepth,
-					m_impl->colorSpace, filter);
+				for (const Image& image : inputImages)
+				{
+					if (!image)
+						return false;
+				}
+
+				if (!generateMips3d(mipImages, inputImages, mipWidth, mipHeight, mipDepth,
+						m_impl->colorSpace, filter))
+				{
+					return false;
+				}
 			}
 
 			// Set up inputImages based on whether we want to restore state for the next mip.
@@ -1456,30 +1482,19 @@ bool Texture::generateMipmaps(Image::ResizeFilter filter, unsigned int mipLevels
 
 			// Move the results into the texture.
 			DepthImageList& depthImages = m_impl->images[mip];
-			depthImages.resize(mipDepth);
 			for (unsigned int d = 0; d < mipDepth; ++d)
 			{
-				depthImages[d].resize(1);
+				if (!mipImages[d])
+					return false;
+
 				depthImages[d][0] = std::move(mipImages[d]);
 			}
 		}
 	}
 	else
 	{
-		// Set up the storage first.
+		// Process mip by mip to make it easier to manage custom replacements.
 		unsigned int depth = std::max(m_impl->depth, 1U);
-		for (unsigned int mip = 1; mip < mipLevels; ++mip)
-		{
-			DepthImageList& depthImages = m_impl->images[mip];
-			depthImages.resize(depth);
-			for (unsigned int d = 0; d < depth; ++d)
-			{
-				FaceImageList& faceImages = depthImages[d];
-				faceImages.resize(m_impl->faces);
-			}
-		}
-
-		// Then process mip by mip to make it easier to manage custom replacements.
 		for (unsigned int d = 0; d < depth; ++d)
 		{
 			for (unsigned int f = 0; f < m_impl->faces; ++f)
@@ -1529,6 +1544,9 @@ bool Texture::generateMipmaps(Image::ResizeFilter filter, unsigned int mipLevels
 					}
 					else
 						thisMipImage = std::move(curMip);
+
+					if (!thisMipImage)
+						return false;
 				}
 			}
 		}
-- 
2.43.0


From ff361ae3fb63c8e64daf8b185883e3cc4b55734c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:50 +0000
Subject: [PATCH 51/52] fix: the tool ignored failing to flip an image

---
 tool/main.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/tool/main.cpp b/tool/main.cpp
index f23f2a3..6509278 100644
--- a/tool/main.cpp
+++ b/tool/main.cpp
@@ -249,7 +249,11 @@ bool loadAndProcessImage(Image& image, CommandLine& args, const std::string& pat
 			std::cout << "flipping image '" << path << "' along the X axis" <<
 				std::endl;
 		}
-		image.flipHorizontal();
+		if (!image.flipHorizontal())
+		{
+			std::cerr << "error: couldn't flip image '" << path << "'" << std::endl;
+			return false;
+		}
 	}
 
 	if (args.flipY)
@@ -259,7 +263,11 @@ bool loadAndProcessImage(Image& image, CommandLine& args, const std::string& pat
 			std::cout << "flipping image '" << path << "' along the Y axis" <<
 				std::endl;
 		}
-		image.flipVertical();
+		if (!image.flipVertical())
+		{
+			std::cerr << "error: couldn't flip image '" << path << "'" << std::endl;
+			return false;
+		}
 	}
 
 	if (args.swizzle)
-- 
2.43.0


From 8c565c0648437afd0749c6065ff5c9a5cc067473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:51 +0000
Subject: [PATCH 52/52] fix: mipmaps after a replaced level came from the wrong
 image when running out of memory

---
 lib/src/Texture.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/src/Texture.cpp b/lib/src/Texture.cpp
index ef64527..093980c 100644
--- a/lib/src/Texture.cpp
+++ b/lib/src/Texture.cpp
@@ -1522,6 +1522,9 @@ bool Texture::generateMipmaps(Image::ResizeFilter filter, unsigned int mipLevels
 							curMip = m_impl->images[mip - 1][d][f].resize(
 								mipWidth, mipHeight, filter);
 						}
+
+						if (!curMip)
+							return false;
 					}
 
 					// Set up prevImage based on whether we want to restore state for the next mip.
-- 
2.43.0

