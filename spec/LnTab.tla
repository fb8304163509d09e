------------------------------- MODULE LnTab -------------------------------
(* 1000 ln(n) *)
EXTENDS Integers
Ln1000 == <<
  0, 693, 1099, 1386, 1609, 1792, 1946, 2079, 2197, 2303, 2398, 2485, 2565, 2639, 2708, 2773, 2833, 2890, 2944, 2996,
  3045, 3091, 3135, 3178, 3219, 3258, 3296, 3332, 3367, 3401, 3434, 3466, 3497, 3526, 3555, 3584, 3611, 3638, 3664, 3689,
  3714, 3738, 3761, 3784, 3807, 3829, 3850, 3871, 3892, 3912, 3932, 3951, 3970, 3989, 4007, 4025, 4043, 4060, 4078, 4094,
  4111, 4127, 4143, 4159, 4174, 4190, 4205, 4220, 4234, 4248, 4263, 4277, 4290, 4304, 4317, 4331, 4344, 4357, 4369, 4382,
  4394, 4407, 4419, 4431, 4443, 4454, 4466, 4477, 4489, 4500, 4511, 4522, 4533, 4543, 4554, 4564, 4575, 4585, 4595, 4605,
  4615, 4625, 4635, 4644, 4654, 4663, 4673, 4682, 4691, 4700, 4710, 4718, 4727, 4736, 4745, 4754, 4762, 4771, 4779, 4787,
  4796, 4804, 4812, 4820, 4828, 4836, 4844, 4852, 4860, 4868, 4875, 4883, 4890, 4898, 4905, 4913, 4920, 4927, 4934, 4942,
  4949, 4956, 4963, 4970, 4977, 4984, 4990, 4997, 5004, 5011, 5017, 5024, 5030, 5037, 5043, 5050, 5056, 5063, 5069, 5075,
  5081, 5088, 5094, 5100, 5106, 5112, 5118, 5124, 5130, 5136, 5142, 5147, 5153, 5159, 5165, 5170, 5176, 5182, 5187, 5193,
  5198, 5204, 5209, 5215, 5220, 5226, 5231, 5236, 5242, 5247, 5252, 5257, 5263, 5268, 5273, 5278, 5283, 5288, 5293, 5298,
  5303, 5308, 5313, 5318, 5323, 5328, 5333, 5338, 5342, 5347, 5352, 5357, 5361, 5366, 5371, 5375, 5380, 5384, 5389, 5394,
  5398, 5403, 5407, 5412, 5416, 5421, 5425, 5429, 5434, 5438, 5442, 5447, 5451, 5455, 5460, 5464, 5468, 5472, 5476, 5481,
  5485, 5489, 5493, 5497, 5501, 5505, 5509, 5513, 5517, 5521, 5525, 5529, 5533, 5537, 5541, 5545, 5549, 5553, 5557, 5561,
  5565, 5568, 5572, 5576, 5580, 5583, 5587, 5591, 5595, 5598, 5602, 5606, 5609, 5613, 5617, 5620, 5624, 5628, 5631, 5635,
  5638, 5642, 5645, 5649, 5652, 5656, 5659, 5663, 5666, 5670, 5673, 5677, 5680, 5684, 5687, 5690, 5694, 5697, 5700, 5704,
  5707, 5710, 5714, 5717, 5720, 5724, 5727, 5730, 5733, 5737, 5740, 5743, 5746, 5749, 5753, 5756, 5759, 5762, 5765, 5768,
  5771, 5775, 5778, 5781, 5784, 5787, 5790, 5793, 5796, 5799, 5802, 5805, 5808, 5811, 5814, 5817, 5820, 5823, 5826, 5829,
  5832, 5835, 5838, 5841, 5844, 5846, 5849, 5852, 5855, 5858, 5861, 5864, 5866, 5869, 5872, 5875, 5878, 5881, 5883, 5886,
  5889, 5892, 5894, 5897, 5900, 5903, 5905, 5908, 5911, 5914, 5916, 5919, 5922, 5924, 5927, 5930, 5932, 5935, 5938, 5940,
  5943, 5945, 5948, 5951, 5953, 5956, 5958, 5961, 5964, 5966, 5969, 5971, 5974, 5976, 5979, 5981, 5984, 5986, 5989, 5991,
  5994, 5996, 5999, 6001, 6004, 6006, 6009, 6011, 6014, 6016, 6019, 6021, 6023, 6026, 6028, 6031, 6033, 6035, 6038, 6040,
  6043, 6045, 6047, 6050, 6052, 6054, 6057, 6059, 6061, 6064, 6066, 6068, 6071, 6073, 6075, 6078, 6080, 6082, 6084, 6087,
  6089, 6091, 6094, 6096, 6098, 6100, 6103, 6105, 6107, 6109, 6111, 6114, 6116, 6118, 6120, 6122, 6125, 6127, 6129, 6131,
  6133, 6136, 6138, 6140, 6142, 6144, 6146, 6148, 6151, 6153, 6155, 6157, 6159, 6161, 6163, 6165, 6168, 6170, 6172, 6174,
  6176, 6178, 6180, 6182, 6184, 6186, 6188, 6190, 6192, 6194, 6196, 6198, 6201, 6203, 6205, 6207, 6209, 6211, 6213, 6215,
  6217, 6219, 6221, 6223, 6225, 6227, 6229, 6230, 6232, 6234, 6236, 6238, 6240, 6242, 6244, 6246, 6248, 6250, 6252, 6254,
  6256, 6258, 6260, 6261, 6263, 6265, 6267, 6269, 6271, 6273, 6275, 6277, 6279, 6280, 6282, 6284, 6286, 6288, 6290, 6292,
  6293, 6295, 6297, 6299, 6301, 6303, 6304, 6306, 6308, 6310, 6312, 6314, 6315, 6317, 6319, 6321, 6323, 6324, 6326, 6328,
  6330, 6332, 6333, 6335, 6337, 6339, 6340, 6342, 6344, 6346, 6347, 6349, 6351, 6353, 6354, 6356, 6358, 6360, 6361, 6363,
  6365, 6366, 6368, 6370, 6372, 6373, 6375, 6377, 6378, 6380, 6382, 6384, 6385, 6387, 6389, 6390, 6392, 6394, 6395, 6397>>
=============================================================================
