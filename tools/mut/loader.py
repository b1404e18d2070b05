F='src/data_manager/data_loader.cpp'
MUT=[
('P01',F,'newImuMeas->timeStamp -= this->timeStampOffset;','newImuMeas->timeStamp -= this->timeStampOffset + 0.5;'),
('P01',F,'return false;\n        }\n        // 校准','return true;\n        }\n        // 校准'),
('P02',F,'feat->timeStamp <= imu->timeStamp','feat->timeStamp < imu->timeStamp'),
('P02',F,'< static_cast<fp64>(this->imuPeriod)','<= static_cast<fp64>(this->imuPeriod)'),
('P02',F,'output->Clear();','output->imuMeas.clear();'),
('P03',F,'this->imuMeas.back()->timeStamp <= this','this->imuMeas.back()->timeStamp < this'),
('P03',F,'while (this->imuMeas.front()->timeStamp <= output','while (this->imuMeas.front()->timeStamp < output'),
('P03',F,'this->imuMeas.push_front(mid);',''),
('P03',F,'left->accel * (1 - rate) + right->accel * rate','left->accel * rate + right->accel * (1 - rate)'),
('P03',F,'1e-6','1e-5'),
('P03',F,'output->Clear();\n        // 如果队列为空，则','// 如果队列为空，则'),
('P20','include/utility/math_lib.hpp','0.5','0.25'),
]
