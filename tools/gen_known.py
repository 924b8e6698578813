"""known_findings.json: repaired (suppress nothing) and open findings."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FIXED = """
C08 2b9ff1b the mask guessed for arrays, primary HDUs and HDU lists rebuilt the data from the input: crop and gain were lost
C08 5d97f08 a crop with a zero trailing margin gave an empty image
C07 c122f35 an HDU list whose header says EXTEND but has no second HDU raised IndexError
C09 963fc0f detected cosmic rays were never interpolated (the updated mask was dropped)
C10 04bf422 normalisation image, matched-filter transform and image kept the values of an earlier zero point or information loss
C10 70af963 assigning inf_loss left the PSF basis and the coefficient fields of the former value
C12 cf8935b get_psf_xy near the edges raised or gave a PSF of a wrong shape
C03 e14ab97 without any flagged pixel subtract and coadd returned a scalar instead of a mask
C05 ce2bfed coadd with more workers than images raised IndexError
C01 c87d8a9 the fitted PSF of a non-square image was centred at transposed coordinates
C15 5822839 transparency matched with the source numbers of an earlier call
C15 8a6deb7 the magnitudes of different images were interleaved in the wrong order
C16 950b2bb the master source with id 0 counted as unmatched
C20 9d2bbec iso_kw of the caller was ignored by Plot.autopsf
C19 c6d7683 the Airy pattern of odd size was NaN at the centre
C08 97593c9 border trimming dropped rows and columns holding data, or kept zero ones
C19 0b87ad4 delta_point with weights put the weights at the wrong pixels
C14 eb82ada strict star pick was never disabled for few candidates (wrong attribute)
C14 20c72c9 padding the stamps used float widths and raised TypeError
C21 4be4f20 coadd replaced the entries of the list it was given
C07 858f6b0 invalid pixels of FITS files without extensions were not masked
C17 45e43ff single precision complex and masked complex images could not be stored
C20 c934ea5 contours of PSF components that are not square raised TypeError
C12 0b58087 the local PSF of even or non-square stamp shapes raised or was cut wrongly
C18 f7a4543 images of forked workers shared their stamp files
C20 3dac982 a single axes given for several PSF components raised TypeError
C17 c373c32 storing a masked image without any mask raised TypeError
C17 8adae48 masked images of unsigned integers were stored with wrong pixel values
C11 0053e4d without any loss more than 250 stars raised IndexError
C14 8dd4365 measuring the star stamps wrote into the cleaned image where stamps lie inside of it
C19 b7e4a44 simulated PSFs narrower than half a pixel or of a single pixel were NaN
C19 566ef3a astropy_Psf raised IndexError, or wrapped around, in frames smaller than its tails
"""
out = []
for line in FIXED.strip().splitlines():
    p, c, t = line.split(" ", 2)
    out.append({"property": p, "status": "fixed", "commit": c,
                "text": f"fixed: property={p} {c} {t}"})
json.dump(out, open(os.path.join(HERE, "known_findings.json"), "w"), indent=1)
