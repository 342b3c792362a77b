D='include/state-observation/tools/definitions.hxx'
Z='src/zero-delay-observer.cpp'; K='src/kalman-filter-base.cpp'; L='src/linear-kalman-filter.cpp'; E='src/extended-kalman-filter.cpp'
LG='src/logger.cpp'; LX='include/state-observation/tools/logger.hxx'; S='src/dynamical-system-simulator.cpp'
B=[
# ---- C01
("c01a","C01",D,"    v_.pop_front();\n    ++k_;","    v_.pop_front();\n    if (v_.size()>0) ++k_;"),
("c01b","C01",D,(1,"    isSet_ = c.isSet_;"),"    if (c.isSet()) isSet_ = c.isSet_;"),
("c01c","C01",D,"  IsSet::set(true);\n  k_=k;\n  v_=v;","  if (!isSet() || k>k_) k_=k;\n  IsSet::set(true);\n  v_=v;"),
("c01d","C01",D,"  k_=k_+TimeIndex(v_.size());\n  v_.clear();","  k_=getLastIndex();\n  v_.clear();"),
("c01e","C01",D,"    v_.resize(size_t(i),m);","    if (size_t(i)<v_.size()) v_.resize(size_t(i),m); else v_.resize(size_t(i), v_.size()>0 ? v_.back() : m);"),
("c01f","C01",D,"    if (time <= getLastIndex())\n    {\n      while","    if (time < getLastIndex())\n    {\n      while"),
("c01g","C01",D,"resize (TimeSize(time-getFirstIndex()+1))","resize (TimeSize(time-getFirstIndex()+(getFirstIndex()<0?0:1)))"),
("c01h","C01",D,"            k_ + TimeIndex(v_.size()) > time);","            k_ + TimeIndex(v_.size()) >= time + (k_!=0));"),
("c01i","C01",D,"        if (v_.size()==0)\n            k_=k;","        if (v_.size()==0 && k>k_)\n            k_=k;"),
("c01j","C01",D,"return k_=index-TimeIndex(v_.size())+1;","return k_=index-(v_.size()>0?TimeIndex(v_.size())-1:0);"),
("c01k","C01",D,"    else\n    {\n      v_.clear();\n    }\n  }\n}\n\ntemplate <typename MatrixType, typename Allocator>\nvoid IndexedMatrixArrayT<MatrixType, Allocator>::truncateBefore","    else\n    {\n      reset();\n    }\n  }\n}\n\ntemplate <typename MatrixType, typename Allocator>\nvoid IndexedMatrixArrayT<MatrixType, Allocator>::truncateBefore"),
("c01l","C01",D,"  v_.resize(size_t(i),m);","  v_.resize(size_t(i));"),
# ---- C02
("c02a","C02",LG,"    i->second.array.clear();","    i->second.array.reset();"),
("c02b","C02",D,"        setValue(v,k);\n        ++k;\n\n","        if (v.size()==0) break;\n        setValue(v,k);\n        ++k;\n\n"),
("c02c","C02",D,"    f.open(filename,std::ofstream::app);","    f.open(filename,clearLog?std::ofstream::app:std::ofstream::out);"),
("c02d","C02",LX,"        log_s log(i->second);\n","        log_s log(i->second.filename);\n"),
("c02e","C02",LX,"      logs_.insert(Tpair(address,log));","      logs_[address]=log;"),
("c02f","C02",LX,"        log.setType<T>();\n        logs_.erase(i);","        logs_.erase(i);"),
("c02g","C02",LG,"double(*static_cast<const unsigned *>(i->first))","double(*static_cast<const int *>(i->first))"),
("c02h","C02",LG,"    if(i->second.filename != std::string(\"\"))","    if(i->second.filename != std::string(\"\") && i->second.array.size() > 0)"),
("c02i","C02",D,"    if (clearLog)\n    {\n      clear();","    if (clearLog && size()>0)\n    {\n      reset();"),
("c02j","C02",D,"        f << k;\n","        if (append) f << k; else f << k-getFirstIndex();\n"),
("c02k","C02",LX,"        logs_.insert(Tpair(newAddress,log));","        logs_[newAddress]=log;"),
# ---- C03
("c03a","C03",Z,"  if(pastState)\n  {\n    y_.clear();\n    u_.clear();","  if(pastState)\n  {\n    y_.clear();"),
("c03b","C03",Z,"u_.size() > 0 && u_.getFirstIndex() < k)","u_.size() > 0 && u_.getFirstIndex() <= k)"),
("c03c","C03",Z,"      u_.setValue(u_k, x_.getTime());","      u_.setValue(u_k, y_.size() > 0 ? y_.getFirstIndex() - 1 : x_.getTime());"),
("c03d","C03",Z,"      if(u_.getFirstIndex() < k) u_.popFront();","      if(u_.getFirstIndex() < i + 1) u_.popFront();"),
("c03e","C03",Z,"    if(y_.getFirstIndex() < k) y_.popFront();","    if(y_.size() > 1 || i + 1 == k) y_.popFront();"),
("c03f","C03",Z,"bool pastState = stateIsSet() && k < getCurrentTime();","bool pastState = stateIsSet() && k <= getCurrentTime();"),
("c03g","C03",Z,"    getEstimatedState(getMeasurementTime());","    getEstimatedState(getCurrentTime() + getMeasurementsNumber() - 1);"),
("c03h","C03",Z,"    while(y_.size() > 0 && y_.getFirstIndex() <= k)","    while(y_.size() > 0 && y_.getFirstIndex() < k)"),
("c03i","C03",Z,"void ZeroDelayObserver::clearInputs()\n{\n  u_.reset();","void ZeroDelayObserver::clearInputs()\n{\n  u_.clear();"),
("c03j","C03",Z,"  u_.reset();\n  y_.reset();","  u_.reset();\n  while(y_.size() > 1) y_.popFront();\n  if(!x_.isSet()) y_.reset();"),
("c03k","C03",Z,"    ObserverBase::setInputSize(p);\n    clearInputs();","    if(p > p_) clearInputs();\n    ObserverBase::setInputSize(p);"),
# ---- C04
("c04a","C04",K,"  ZeroDelayObserver::clearStates();\n  clearStateCovariance();","  ZeroDelayObserver::clearStates();"),
("c04b","C04",K,"  pr_ *= oc_.pbar;","  pr_ *= pr_.trace() > 0 ? oc_.pbar : oc_.pbar;\n  if((r_.array() == 0).all()) pr_ = oc_.pbar;"),
("c04c","C04",L,"p_ > 0 && b_ != getBmatrixZero()","p_ > 0 && b_.col(0) != getBmatrixZero().col(0)"),
("c04d","C04",L,"xbar_().noalias() += b_ * this->u_[k - 1];","xbar_().noalias() += b_ * (u_.checkIndex(k) && d_.size() > 0 && d_ != getDmatrixZero() ? u_[k] : this->u_[k - 1]);"),
("c04e","C04",K,"oc_.inoMeasCov.noalias() = r_ + c_ * (oc_.pbar * c_.transpose());","oc_.inoMeasCov.noalias() = r_ + c_ * (oc_.pbar * c_.transpose());\n  oc_.inoMeasCov.diagonal() = oc_.inoMeasCov.diagonal().cwiseMax(1e-3);"),
("c04f","C04",L,"    KalmanFilterBase::setMeasureSize(m);\n    clearD();","    KalmanFilterBase::setMeasureSize(m);"),
("c04g","C04",K,"  pr_ = ((pr_ + pr_.transpose()) * 0.5).eval();","  pr_ = Matrix(pr_.selfadjointView<Eigen::Upper>());"),
("c04h","C05",K,"  if((n != n_) || (nt_ != nt))","  if(n != n_)"),
("c04i","C04",L,"    return c_ * x + d_ * u_[k];","    return c_ * x + d_ * u_[u_.checkIndex(k + 1) ? k + 1 : k];"),
("c04j","C04",L,"    KalmanFilterBase::setInputSize(p);\n    clearB();","    KalmanFilterBase::setInputSize(p);"),
# ---- C05
("c05a","C05",E,"  opt.a_.resize(nt_, nt_);\n  updateStatePrediction();","  opt.a_.resize(nt_, nt_);\n  if(!xbar_.isSet() || xbar_.getTime() != k + 1) updateStatePrediction();"),
("c05b","C05",E,"    if(u_.checkIndex(k))\n    {\n      opt.u_ = u_[k];","    if(directInputOutputFeedthrough_ && u_.checkIndex(k))\n    {\n      opt.u_ = u_[k];"),
("c05c","C05",E,"    else\n    {\n      opt.u_ = inputVectorZero();\n    }\n  }\n\n  return f_->measureDynamics","  }\n\n  return f_->measureDynamics"),
("c05d","C05",E,"    if(directInputStateProcessFeedthrough_)\n      opt.u_ = this->u_[k];\n    else\n      opt.u_ = inputVectorZero();","    if(directInputStateProcessFeedthrough_) opt.u_ = this->u_[k];"),
("c05e","C05",E,"  xbar_.set(prediction_(k + 1), k + 1);\n",""),
("c05f","C05",E,"    opt.yp_ = simulateSensor_(opt.xp_, k + 1);","    opt.yp_ = f_->measureDynamics(opt.xp_, opt.u_, k);"),
("c05g","C05",E,"    opt.dx_ /= dx[i];\n","    opt.dx_ /= opt.dx_.size() > 1 ? dx[i] : dx[0];\n    if(i > 0 && dx[i] < 0) opt.dx_ = -opt.dx_;\n"),
("c05h","C05",E,"  if(f_ != 0x0) f_->reset();",""),
("c05i","C05",E,"void ExtendedKalmanFilter::setDirectInputStateFeedthrough(bool b)\n{\n  if(p_ > 0)","void ExtendedKalmanFilter::setDirectInputStateFeedthrough(bool b)\n{\n  if(p_ > 0 && !directInputStateProcessFeedthrough_)"),
("c05j","C05",E,"f_->stateDynamics(this->x_(), opt.u_, this->x_.getTime())","f_->stateDynamics(this->x_(), opt.u_, k)"),
("c05k","C05",E,"    opt.xp_ = f_->stateDynamics(opt.x_, opt.u_, k);","    opt.xp_ = f_->stateDynamics(opt.x_, opt.u_, k + 1);"),
("c05l","C05",K,"  return simulateSensor_(getEstimatedState(k), k);","  if(ybar_.isSet() && ybar_.getTime() == k && innovation_.size() > 0 && innovation_.isZero(0)) return ybar_();\n  return simulateSensor_(getEstimatedState(k), k);"),
# ---- C13
("c13a","C13",S,"  y_.truncateAfter(k - 1);","  y_.truncateAfter(k);"),
("c13b","C13",S,"upper_bound(k)","lower_bound(k)"),
("c13c","C13",S,"  x_.truncateAfter(k - 1);","  if(x_.getLastIndex() > k) x_.truncateAfter(k);"),
("c13d","C13",S,"  x_.reset();\n  y_.reset();\n  u_.clear();","  x_.reset();\n  y_.reset();"),
("c13e","C13",S,"  for(TimeIndex i = startingTime; i < startingTime + TimeIndex(duration); ++i)\n  {\n    a.setValue(getMeasurement(i), i);","  for(TimeIndex i = startingTime; i < startingTime + TimeIndex(duration); ++i)\n  {\n    a.setValue(getMeasurement(i), i - x_.getFirstIndex());"),
("c13f","C13",S,"  u_[k] = u;","  u_.insert(std::make_pair(k, u));"),
("c13g","C13",S,"if(y_.size() == 0 || y_.getNextIndex() <= k) simulateDynamicsTo(k + 1);","if(y_.size() == 0 || y_.getNextIndex() <= k) simulateDynamicsTo(k + 1);\n  else if(u_.count(k)) return f_->measureDynamics(x_[k], u_[k], k);"),
("c13h","C13",S,"f_->stateDynamics(x_[k], u, k), k + 1);","f_->stateDynamics(x_[k], getInput(y_.size() > 1 && u_.count(k + 1) && k < 0 ? k + 1 : k), k), k + 1);"),
]
