package playback

// Songs on which the decoder panics (found by trying damaged files).
const damagedSong1 = "" +
	"//uQsEt6dfYidxgyc3oQhR3W6i/5TrCMWVcnuTP/JgaGLzNoAAAAAP8A////////AAD//wD//wD/AP8A////AP8A//8AAP8A/wD///8A/wD//wD/AP////////8AAAAAAAAAAAAA//8AAP//////AP" +
	"//AAAA/wD///8A////AP8A//8AAAD/AAD//wAAAAD//wAAAP//AP///wAAAAD//wAA//8A//8A/wD/AP///wAAAAAA//8AAAD//wD///////8AAAD//wAAAAD///8A/wD//////wAA////AAAA//8A" +
	"//////8AAP///wD/////AAD//wAA/////wAAAAD/AAAAAP///wD/AP8A/wAAAAAA//////8A//8A/wAAAAAA//////////8AAAD///8AAP//AP//AP//AP8AAP//AP8AAP8A//8AAAAA/wAAAAAAAA" +
	"AAAAD/AAD/AAAAAAAAAP///wD///8AAP8A/////wAA/////wD//wD//wD/AAD///8A/wAA/wAAAP8A//8A//8AAP//AAAA/wD///8A/wD///uQYJYLYBUA8yZyClhAmKXNIPb61zdT9dPZ30ns5mqm" +
	"fKMVAAD/AAAAAAAAAAAA/wD/AAD/AP8AAAAA/wAA////AP///wAAAP8A/wD/AP8AAAD//wAAAAAAAP8AAP8AAAD/AAAAAAD/////AP//AP8A/wAA////AP8A//8A/////wD/AP///wD/////AP8A/w" +
	"D/AP8A/wAA////AP8A/wD/AAD/AP8A/wD/AP///////wAA//8A/wAAAAD//wAAAAD/////AP//AP8A//8AAAAAAP8A/////wD//wAAAAD//wD/AP8AAP////8AAP//AP8AAP8AAP8A/wAA/wD/AAD/" +
	"AAAAAP//AP8AAP//AAD/AP8A//8A/////wAAAP//AAAA//8AAAAA/wD/AAAAAAD/AP///wD/AAD//wD//////wD//wD/AP8A////AAAA/wAA/wD//wAA//8A/wAAAAAAAP8A/wD//wD/AP//////AA" +
	"AA//8AAAAAAP////8A//8A/wD/AAAA/wD/AP8AAAD/AP///wAA/wD/AAD/AP8A//uQ8GQf7shaqf+bLjmT6TCWDUxFWNLPDdvsGcvIQgUVkXsUAAAA//////8AAP8A/////wAA/wAA/wAAAAD//wAA" +
	"AAAA//8AAP8AAAAA/wD/AAAA/wAA/wAA////AP8A/wAA/wD/////AAAAAP//AP//AP8AAAD/AP8AAP8A////AAD//wD//wD/AAD//wD/AAD/////AAAAAP8AAAAAAP8A//8A//8AAAD/AAD/AAD///" +
	"//AAD/AP//AP8A/wAA/wD/AP8A/wD/AP8AAAD/AAD/////AP8AAP8AAAAAAAD/AP8A/////wAAAAD/AP//AP//AAAA/wAAAAAAAAD//wAAAP8A/wAAAP8AAAAAAAD/AAD/AP8AAP////8A/wD//wD/" +
	"AP8A//8A/wD/AP8A/wD///8AAAD/AP///wD//wAA//8A/wAA/////wD//wAAAP8A/wD//wD//wD/AP///wAAAAD/AAAAAP//AAD/AP////8A/wAAAP//////AAAAAP///wAA//////8AAP8AAAAA/w" +
	"AA/wD///8A/wD//wD///uQsAAmelA0wJ7nF6hbcVcPYyuA+RQyhxKtWt+WwRje6DX93O6F2LiSSEUN8dfvHDD1eYpnF8+jPZPCg8UyTVEncFa73s1CsV5ufjQ+lMCPF+Q29rXKGlyJYic9TCQL9zcz" +
	"3TJfwEPMNEXVU4ASIzDqeRMQ51LMBh1hIPS9Hkg36R82YOAZHeAmhcx7YBEnJvhBTewW4NKDJqxg+IztaN9f9jUQK9TfqR+bo6X6nEqswrfjFTK/racWeKtaSdrSIlV44ya5xeWrpiLfiwjXNITd/1" +
	"KNNreXJzH76yLNgKMiGv19X7nfzw5JhwfOT6m1P+FHViJP3YYu/sfS3ejq4j0qTgUkmUhge+GlamnvoOx0MO8lmcrh572eqSzA5NDwqByKDBqAI4j/0++R/pn97TWcvrjctj6J5iQS+Bjkrw+U+o/7" +
	"CUErd2x0uWfwsBbhuvL5SxYoojpry3oHPj94N2tWDGmVR43/Z+HfNW2DRpThRSC9UGCQ/trT1Ov/QJfSBXAVnF/wdvJ3GeAJhnNmH+38Xn+KMIKkfAIDZtVCCOcx//uQ4AAdciWKCepQR8Ko1gTRwM" +
	"AzFBpFpnwKbqJtj90RGm100Mx9T9DnDHl25JD6YkGI4uLTy6LPDTvzzVUnNmW+NRnJEIy2hrZ+spEQaIkxMOqA4eGkRd/OtjjPfO+IUf11u4x7eZ2IIVkwUktN6EO8wRePw/5Mx2sumL1QRezUUJGA" +
	"SADT8S/2RGgtb6gIYkUQet1UPukYLtqrPiemf0M0O8kBN1KSAJckmjBmox3arTUINOzcihvSd4zGdn4IHVuAXgVrh2VrEjGpiE0nzcuMkEZFilDcmZGcZTfMYcPUwLrc82wUux9tx5qiL7PzzDKmSe" +
	"L4Ny/sA7ev/dBFIeLITc9QhyarOyRNEWqfMa4u+fspQf/iCmUrVhjXu7R/3DstlBdmGZNHD8IexVpkKREbqVo9bx58MOohTNJvaysmzDPUtIvQLfvI8ubuZES0Nke3/U2cI3X2Lj5xHE6Sy4WAsRAh" +
	"ZwVM4udDkimdlwAxZcWy/wYj9ZPfUE5y+wRk/HDoohnaMCpBnZTnssRMGj1XVKhVHun6HpOfxH1fWSol//uQ4AAw6JWP9Ke3aMxo0aO8O4a0PEKbidZRSZcD9sZL1OaV3No4kpg9oO56tVcjCGfCe9" +
	"wBYjNWJ0tQT+aMUfMLfdgYVhBsJWMRrRQ6FWhoF/ZLjAUBiEba5LAyGnbOGLwoiaJSGl/3QnMny0IJsx6qWejCU0mjkHpOQUQ+ztkugdRMyyZMSVsT3UAiOv7rLwOveEkg7RIU740Kwve7fMEvAhH7" +
	"R0Fx3+oyxlp17p1HTZgGMJ2rHjYTKF1hlmcGUHbwBaIiTyBFq6GF9vCy+sD5rEQqIXhTZuA4EK6rdDKXs3AxPpiwl0+ThV3QyvN488XbC37YrZwFxK8AwynCsVyDZMQp4XSRzLLSW+q7rvNtEGS00B" +
	"C/oblrgT0QPeIiznBpMYel4htHVuMxjnPi7iE8YeD1RO2Vg64TeAvikkxz1PplL1OSM80VQrD11XDpgIOadtkm9dzOOonIpuxqYo/BEGvS3XGcqQnJKjKDjbIbK8ceHjCWO5mSIzHRIo4N71xoxcmx" +
	"K16z58qrmONvdtTuhEicajmJsmnLuTOWZQYG"

const damagedSong2 = "" +
	"//uQoOo9gEgAVvk76rdLXzQWX3HI86lvNVvyZgpkDNV6U9lODsD7NrMAE4yzM/I1NHavMf95j9Fdr6T9rngSjsKJujchba/ByOaFTMbnnu5h+19GhhsUFU8VewmHLU0yFtXX0C23twV7H7wsb9yrLM" +
	"7co7omkWIkxKBR3gUNHUaIMWbp0aa0odrfMhg6fONo2hDkDAN0DZ5y2OtCoU+pFiwjdndsUJNGKJIwweMAx1Hn7hoSdkoI3Jws1dGv2DgUcL9QHkUynTGaSuEIZo3BW8W2u1lvyppYDh+/uQUZvgRF" +
	"9PnKN5l2kpARUZe4SezT7uu1qyrQ0k8JYQvhJjFPJusG0QJG/xOMq38/nTCoCdkzHyNbK7vzCLkqTFXUW4+iRjdMyfcNbFywCNQhp3B1Hklv3+Ebjz3OKZQBb/ST549+Jvawk2idVIIovLPRDFtUQO" +
	"9+a7IUrYIhR9NyAYy+9BNem5Ru3YIi2OZQwf4Iu8GXNrPo3Q3VdguQzb0fX3aqH2Ezfike+c9NG3PrN0GPKh/zFYsYNP26ruLKk4Ecgpgu//uQYNvDT6jzhesBn+NM+pd1LI3kNTpvGz1a2jFhs3n0" +
	"OyFgAAAAAAAAAAD//////////wD/AAD//wAAAP8A/wD//////wD/AP8A/wD//wD///8AAAD/AAAA//8AAP///wD//////wAAAP8AAP//AAAAAP//AP8AAAAA//8AAP////8AAAD//wD/AAAAAP8AAA" +
	"D//wAAAP///wAA//8A/wD/AAD/AAAA/wAA/wAA//8A/wAAAP///wD/AAAA//8AAP//AAAA//8AAP8AAAD///8A////AP8AAP8A/wAA/wAA/wD/AP//AAAAAAAAAP8AAP8A//8A////AAAAAP//AAD/" +
	"AAD/AAD/AP8AAAD///8A//8AAP//AAD/AP//AAD/AAAAAP//AP////8AAAD/AP8AAAD/AP8AAP8A/wD///8AAP///wD///8AAP//AAAA/wD/AAD///8AAP8A/wD//wAAAP8AAAAA/wD/AAAAAAAAAP" +
	"8AAAD//////wD/AAD/AP8A/wAAAP8A/wD///8AAAAA/wD//wD///8A//8A//////uQMABxHdmGuZ/czJtWTfcMSxr39Ej2wJucawbVMpCuhrAz3w5FZCwpOZOvAvcxJZR3dpS8B3LxK5iPEH8Qm0Dk" +
	"or2tDi53O9Yzngf0zA4YgE4RGwjBYgkL4YUSp4adCFWKV0nGSiObL4gfxKOSzYhbBN/rUSrtl3LFt2BZa6HYQpI/EcHgutBuTQPxEP95GFwwhdImZXF74m0WxckDgZTDwK4eXMtL8FawktoEc5prri" +
	"RcJpURPz8OlXVqxIutJa5Fwxz7tZfx2m3QOuw/sRUGQRGytpWmofUBccRpeb6FCWotULV/16r7v1tLmGzgAsUhflMxxLAZjcYSykMl2uonhvIZh8BBS7ZdWEQ3pi3tT457q8p9lmONx+kgoNrLv7dS" +
	"K0xxftIU3AZJd2zdFt2zfXU0Xm4v2fM8bRP47kSga6GcW1gW5mVtl5tIIwOOqrRJUuqev0hxW0xD89+eGt1MOx0iKN94uxpnwuNLqYljRmmqT/N4OlZRLp11jrN74p3+lLc0CgEUASAE8+TiT6QnwL" +
	"4Cnu3l4nq2/MX/5C71//uQcABf33+7bYJz2QUm3XdJYFFZBJWs4BTb6zRFw2trRng6530c/mYHOoTFP36c866EKpn+fP+zU2A/sKqyg4nusFpNADDkk2R4TKNxjz/5LRQOnn6qDux2jHGpTvfugcxe" +
	"h7OxHRWvaC7VLRAT2qSZ33GsQt/n1fMtc9GhsnLDsUYbcRKwmup7Oh8MMkKsAT+N3tnv/7uKsecPBnthJrWwpxtX7YhXBd27pXs4whB2Khrn2i+t7gyBJHHfnDNUz9OMFSrSYZf+xxopx/Ty+P3XQP" +
	"CZWj8wVXS6WGmjMspMxd6A1Iu4esIS4SypGevD4JBkoQpjKaSURnas2AzU03+M0XOQzMC9MWiDv0o1SA0m8P7KABEMvonlivUY8W1MPDA7eFuOmZyjZEKechvx4TDFZIQi660dagBMnpMkQJfQmmSA" +
	"uRgKTpTcovy/0MS0rGV51tgKhPch/ac61EIbi19br7syBuEEPVG+gBIhbpajms/NeD4w1ApzlLhy/bLR3KxhloNsSGNxGscFOH3nvH8GbC4r8pfw434KOx7Ke7zc//uQkABpxyBMsKJiis8Zi1h3QX" +
	"pKiZX3GJURvktRkdCzozhVfVqFXzgEOmYeo/KrkOygZpTWGVP8GEOQPX950ckNz8KJkPS++8OOBLTsa4GvK6r7xxdEJJAYrO5bsLsmywlIUNlVpxqm+uUGu6MjP9EaRz5c7RhZ9Y0y8U9zZjydtsSl" +
	"beoI+2bzWYwgvkUyk7uemmtlzVK5e7ELOWSvL8d/taqdpQX1M2/c6T2BtZtKkb4DJCvjMA30KKf/H2KHLUzsflmJgRA4ANVekfrR5FCUWAkqSmHtgyDOfIvbKbsfCnPGeig8HIWqBA9eF4r7kZfXi3" +
	"Udf3YOIbahAf1A8Gpv4uSKG+/aqVxiT4vtIbSEYGrZXQec3204RHDSBye46hDxWGlWtYiwVRwysCcWVacB4DKp1RFweFfpUHmEl5MbOXcYCu4BaBMin6DR744LHGZuqQI/feFNphzmc92/LtbR5aB7" +
	"M0p+47QDFjf3uAQmln4rUnTJBdfVoCrxCBwrKbQUD5icvd4manDa0yI+EEehb2sKcFY0SCvCnWiUFGIg//uQoGRMUvQfG2pJzN6fUO/7DHG0Re/btxHf63roVL7+mOiJ/wD//wD/AP//////AAD///" +
	"///wD/////AP8A/wD///8A//8AAP8AAP//////AP8AAP///wD//wAAAP////8A//8AAAAAAAD///8A/wD/AAD/AP8AAAAAAP8AAAD/AAD//wAAAP////8AAP8AAAAAAAAA/wD//wD/AAD/AAD//wD/" +
	"AAAA/wD/AAD/AP8AAP8A/wAA/////////////wAAAAD/AAAAAAAAAP8A/wAA/wAA/wD///8AAAAA/wAAAP///wAA/////wD/AP8AAAD///8AAP8A////AP//AP////8AAP//AP//AP8A////////AA" +
	"D/AP8AAAD//wAAAAAA/wAA//////8AAP////8AAP8AAAAA/wD//wD//////wD//////wD/AAAAAP//AP8AAP8AAAAAAP//AAD/////AAAA/wD/AAD/AP//AP8A//////8AAAD/AP8A/wAAAAD//wD/" +
	"/wAAAAAA//////8A/wD//////wD//wAA/wD/"
